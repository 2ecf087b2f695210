From 0b51c8aec3e4fe062fa3d50108dd47989f32cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 01/42] fix: Pack op= scalar and Pack::set(mask,scalar,scalar)
 take the scalar by value

A lane of the pack itself is a legitimate scalar operand (p += p[0]). Taken
by reference, lanes after the aliased one saw the already updated value.
---
 src/pack/ekat_pack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..1f9e5e8 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -207,7 +207,7 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     std::is_constructible<scalar,S>::value,                 \
     Pack&                                                   \
   >                                                         \
-  operator op (const S& a) {                                \
+  operator op (const S a) {                                 \
     vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
     return *this;                                           \
   }
@@ -319,7 +319,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar v_true, const scalar v_false) {
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From 64519e654ebec824017d92be795bac44d71e923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 02/42] fix: index_and_shift sets the unshifted lane even if
 the shifted index is out of bounds

In debug builds the lane was skipped altogether, so index[i] kept whatever
the caller's pack contained, although i0[i] is a valid index.
---
 src/pack/ekat_pack_kokkos.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..937807c 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -90,7 +90,11 @@ index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_c
     const auto i0i = i0[i];
 #ifndef NDEBUG
     // We don't want to trigger kokkos OOB errors if they are on
-    if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
+    if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) {
+      // The shifted index is OOB, but the unshifted one may well be valid
+      if (i0i >= 0 && i0i<static_cast<int>(a.size())) index[i] = a(i0i);
+      continue;
+    }
 #endif
     index[i]       = a(i0i);
     index_shift[i] = a(i0i + Shift);
-- 
2.43.0


From 33165bbd10a89cb88a72bba17f9a5e81e39391f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 03/42] fix: rank-1 multi-slice subview checks the upper end of
 the range, like all other ranks

---
 src/kokkos/ekat_subview_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_subview_utils.hpp b/src/kokkos/ekat_subview_utils.hpp
index ea13e34..ded3508 100644
--- a/src/kokkos/ekat_subview_utils.hpp
+++ b/src/kokkos/ekat_subview_utils.hpp
@@ -324,7 +324,8 @@ subview(const ViewLR<ST*, Props...>& v,
         const int idim = 0) {
   assert(v.data() != nullptr);
   assert(idim == 0);
-  assert(kp0.first >= 0 && kp0.first < kp0.second);
+  assert(kp0.first >= 0 && kp0.first < kp0.second
+         && kp0.second <= v.extent_int(0));
   return Unmanaged<ViewLS<ST*,Props...>>(Kokkos::subview(v, kp0));
 }
 
-- 
2.43.0


From 09ef3d2a22cce5cf6e68444accffe8dc6fc6e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 04/42] fix: ViewBroadcast::extent rejects i==rank and includes
 the header of the assertion it uses

---
 src/kokkos/ekat_view_broadcast.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..22dd793 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -2,6 +2,7 @@
 #define EKAT_BROADCAST_VIEW_HPP
 
 #include "ekat_kokkos_meta.hpp"
+#include "ekat_kernel_assert.hpp"
 #include "ekat_assert.hpp"
 
 namespace ekat {
@@ -83,7 +84,7 @@ public:
 
   KOKKOS_INLINE_FUNCTION
   int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(m_view_impl.rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From e88a1cb6cbf74577948c1fca3068223dbc1d1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 05/42] fix: device min/max/max_element/upper_bound pick what
 their std counterparts pick on ties and NaN

---
 src/kokkos/ekat_math_utils.hpp  | 6 +++---
 src/kokkos/ekat_upper_bound.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..044358c 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -19,20 +19,20 @@ namespace impl {
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& min (const T& a, const T& b) {
-  return a < b ? a : b;
+  return b < a ? b : a; // like std::min: a, if equivalent
 }
 
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& max (const T& a, const T& b) {
-  return a > b ? a : b;
+  return a < b ? b : a; // like std::max: a, if equivalent
 }
 
 template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<; like std::max_element: the first, if equivalent
       me = it;
   return me;
 }
diff --git a/src/kokkos/ekat_upper_bound.hpp b/src/kokkos/ekat_upper_bound.hpp
index 84231e1..c1113f7 100644
--- a/src/kokkos/ekat_upper_bound.hpp
+++ b/src/kokkos/ekat_upper_bound.hpp
@@ -38,7 +38,7 @@ const T* upper_bound(const T* first, const T* last, const T& value)
     it = first;
     step = count / 2;
     it += step;
-    if (value >= *it) {
+    if (!(value < *it)) { // only operator<, as std::upper_bound
       first = ++it;
       count -= step + 1;
     }
-- 
2.43.0


From bcfb3e335b08cbba755864d4ca1fdf978911fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 06/42] fix: packed team reduction over a range inside one pack
 does not read past its end

---
 src/algorithm/ekat_reduction_utils.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..3a6b4a5 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -113,14 +113,16 @@ auto view_reduction (const TeamMember& team,
     if (has_garbage_begin) {
       const auto temp_input = input(pack_loop_begin-1);
       const int first_indx = begin % N;
-      for (int j=first_indx; j<N; ++j) {
+      // If the range ends inside the first pack, stop there
+      const int stop_indx  = pack_loop_begin > pack_loop_end ? end % N : N;
+      for (int j=first_indx; j<stop_indx; ++j) {
         result += temp_input[j];
       }
     }
 
     // Complete packs to be reduced. If Serialize, reduce each pack first, then
     // sum into result. Else, sum up packs, then reduce the packed sum into result.
-    if (pack_loop_begin != pack_loop_end) {
+    if (pack_loop_begin < pack_loop_end) {
       auto temp = impl::parallel_reduce<false,PackType>(
           team, pack_loop_begin, pack_loop_end,
           [&](const int k, PackType& local_packed_sum) {
@@ -131,8 +133,9 @@ auto view_reduction (const TeamMember& team,
     }
 
     // If last pack has garbage, we did not include it in the main reduction,
-    // so manually add the last pack (only the non-garbage part)
-    if (has_garbage_end) {
+    // so manually add the last pack (only the non-garbage part), unless it is also
+    // the first pack, in which case it was already added
+    if (has_garbage_end && pack_loop_begin <= pack_loop_end) {
       const PackType temp_input = input(pack_loop_end);
       const int last_indx = end % N;
       for (int j=0; j<last_indx; ++j) {
-- 
2.43.0


From 803cc3247771bccba165687227790c8891ad3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 07/42] fix: take_many_contiguous_unsafe must follow the free
 list

The next free slot after the last block taken is the one its metadata
names, not the following one, which may be in use.
---
 src/kokkos/ekat_workspace_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..499a35c 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -312,16 +312,18 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   }
 #endif
 
+  int next_slot = m_next_slot;
   for (int n = 0; n < static_cast<int>(N); ++n) {
     const auto space = m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot+n);
     *ptrs[n] = space;
+    next_slot = m_parent.get_next<S>(space);
   }
 
   // We need a barrier here so get_space_in_slot above returns consistent results
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    m_next_slot = next_slot;
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
-- 
2.43.0


From 2b40cc76fb608adb15de0df17fce14a46cbc4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 08/42] fix: take_macro_block must follow the free list

As for take_many_contiguous_unsafe: the slot after the macro block may be
in use.
---
 src/kokkos/ekat_workspace_impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 499a35c..45652ee 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -353,12 +353,19 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
 
   const auto space = m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot);
 
+  // The slot that is free after the last sub-block is not necessarily the following one
+  int next_slot = m_next_slot;
+  if (n_sub_blocks > 0) {
+    next_slot = m_parent.get_next<S>(
+        m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot + n_sub_blocks - 1));
+  }
+
   // We need a barrier here so get_space_in_slot above returns consistent results
   // w/in the team.
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    m_next_slot = next_slot;
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From 9a396c23f261bb22bdbf8c2d4ef5c8003debde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 09/42] fix: release_many_contiguous must keep the slots
 already free

The last block released was left linked to the slot that followed it when
it was taken, so slots released in the meantime were lost.
---
 src/kokkos/ekat_workspace_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 45652ee..beffb75 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -635,7 +635,11 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(*ptrs[0]);
+    // The blocks are still linked to each other; link the last one to the slots already free
+    if (N > 0) {
+      m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
+      m_next_slot = m_parent.get_index<S>(*ptrs[0]);
+    }
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], "", true);
-- 
2.43.0


From ccb21a5b65f1495d2666eb8dc88d1a37c28bdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 10/42] fix: release_macro_block must keep the slots already
 free

The last sub-block was linked to the slot following it, whatever its state,
so slots released earlier were lost and slots in use became free.
---
 src/kokkos/ekat_workspace.hpp      |  3 +++
 src/kokkos/ekat_workspace_impl.hpp | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/kokkos/ekat_workspace.hpp b/src/kokkos/ekat_workspace.hpp
index 8716e48..56df98a 100644
--- a/src/kokkos/ekat_workspace.hpp
+++ b/src/kokkos/ekat_workspace.hpp
@@ -346,6 +346,9 @@ class WorkspaceManager
   KOKKOS_INLINE_FUNCTION
   void init_slot_metadata(const int ws_idx, const int slot) const;
 
+  KOKKOS_INLINE_FUNCTION
+  void init_slot_metadata(const int ws_idx, const int slot, const int next) const;
+
   void init_all_metadata(const int max_ws_idx, const int max_used);
 
   void compute_internals(const int size, const int max_used);
diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index beffb75..c88bcce 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -246,10 +246,17 @@ WorkspaceManager<T, D>::get_space_in_slot(const int team_idx, const int slot) co
 template <typename T, typename D>
 KOKKOS_INLINE_FUNCTION
 void WorkspaceManager<T, D>::init_slot_metadata(const int ws_idx, const int slot) const
+{
+  init_slot_metadata(ws_idx, slot, slot + 1);
+}
+
+template <typename T, typename D>
+KOKKOS_INLINE_FUNCTION
+void WorkspaceManager<T, D>::init_slot_metadata(const int ws_idx, const int slot, const int next) const
 {
   int* const metadata = reinterpret_cast<int*>(&m_data(ws_idx, slot*m_total));
   metadata[0] = slot;     // idx
-  metadata[1] = slot + 1; // next
+  metadata[1] = next;     // next
 }
 
 template <typename T, typename D>
@@ -661,19 +668,25 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
+  const int first_slot = m_parent.get_index<S>(space);
+  const int next_slot  = m_next_slot;
+
+  // We need a barrier here so that the indices above are consistent w/in the team.
+  m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
+    m_next_slot = first_slot;
 
 #ifndef NDEBUG
     change_indv_meta<S>(space, "", true);
 #endif
   });
 
-  // Reset metadata
+  // Reset metadata, linking the last sub-block to the slots already free
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      const int slot = first_slot + i;
+      m_parent.init_slot_metadata(m_ws_idx, slot, i == n_sub_blocks-1 ? next_slot : slot+1);
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From e3335523ebeea4a8dcf82946049856deddc84051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 11/42] fix: WorkspaceManager::reset_internals must reset the
 free list in every build

The first free slot was only reset in debug builds, while every slot was
relinked as free; in debug builds the number of slots in use was kept.
---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index c88bcce..bac304c 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -161,8 +161,9 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
+  Kokkos::deep_copy(m_num_used, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From 0c12e19c4fa235d27a104831c641c2f6ec2d7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 12/42] fix: WorkspaceManager::report did not compile in debug
 builds

Data has no default constructor, which operator[] needs; and the host
copies were never filled where the data is not already on the host.
---
 src/kokkos/ekat_workspace_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index bac304c..5914a12 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -72,10 +72,10 @@ void WorkspaceManager<T, D>::report() const
   EKAT_ASSERT_MSG (is_initialized, "Error! WorkspaceManager not yet inited.\n");
 
 #ifndef NDEBUG
-  auto host_num_used   = Kokkos::create_mirror_view(m_num_used);
-  auto host_high_water = Kokkos::create_mirror_view(m_high_water);
-  auto host_all_names  = Kokkos::create_mirror_view(m_all_names);
-  auto host_counts     = Kokkos::create_mirror_view(m_counts);
+  auto host_num_used   = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_num_used);
+  auto host_high_water = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_high_water);
+  auto host_all_names  = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_all_names);
+  auto host_counts     = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_counts);
 
   std::cout << "\nWS usage (capped at " << m_max_used << "): " << std::endl;
   for (int t = 0; t < m_max_ws_idx; ++t) {
@@ -106,10 +106,10 @@ void WorkspaceManager<T, D>::report() const
         }
         std::string sname(name);
         if (ws_usage_map.find(sname) == ws_usage_map.end()) {
-          ws_usage_map[sname] = Data(1, takes, releases);
+          ws_usage_map.emplace(sname, Data(1, takes, releases));
         }
         else {
-          auto& e = ws_usage_map[sname];
+          auto& e = ws_usage_map.at(sname);
           e.used += 1;
           e.takes += takes;
           e.releases += releases;
-- 
2.43.0


From 476de27ca587f501a581edb161fb69e7f5d3e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:33 +0000
Subject: [PATCH 13/42] fix: Workspace::get_alloc_count and get_release_count
 did not compile

get_name_idx needs to be told whether to add the name.
---
 src/kokkos/ekat_workspace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace.hpp b/src/kokkos/ekat_workspace.hpp
index 56df98a..c37325e 100644
--- a/src/kokkos/ekat_workspace.hpp
+++ b/src/kokkos/ekat_workspace.hpp
@@ -290,11 +290,11 @@ class WorkspaceManager
 
     KOKKOS_INLINE_FUNCTION
     int get_alloc_count(const char* name) const
-    { return m_parent.m_counts(m_ws_idx, get_name_idx(name), 0); }
+    { return m_parent.m_counts(m_ws_idx, get_name_idx(name, false), 0); }
 
     KOKKOS_INLINE_FUNCTION
     int get_release_count(const char* name) const
-    { return m_parent.m_counts(m_ws_idx, get_name_idx(name), 1); }
+    { return m_parent.m_counts(m_ws_idx, get_name_idx(name, false), 1); }
 
     KOKKOS_INLINE_FUNCTION
     int get_num_used() const
-- 
2.43.0


From 6b7bd16374b76578c6629c194361b8b61463ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 14/42] fix: RationalConstant keeps the sign of a negative
 denominator

---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..e15e279 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return d<0 ? fix_num(-n,-d) : (n==0 ? n : n / gcd(abs(n),abs(d)));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From dc1a96f9e113c70a54f32c1bae05aa7516bc86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 15/42] fix: pow(RationalConstant) of 0 to a positive power,
 and no overflow from an unused square

---
 src/core/ekat_rational_constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index e15e279..2a6a0a3 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -213,6 +213,9 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1 || x.num==0) {
+    // No need to go down to p=0 (it would needlessly compute x*x, and 0^p is fine if p>0)
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From 7e75434dd2a3c4618a26be2b3089186102890356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 16/42] fix: RationalConstant::string_repr prints all digits of
 negative and large numbers

---
 src/core/ekat_rational_constant.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 2a6a0a3..3d84b12 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -81,15 +81,15 @@ struct RationalConstant {
   {
     std::array<char,N> s = {'\0'};
     int pos = 0;
-    int nd_num = ndigits(num);
+    const iType absnum = num<0 ? -num : num;
+    int nd_num = ndigits(absnum);
     int nd_den = ndigits(den);
 
-    assert (N>(nd_num+nd_den+(num<0 ? 1 : 0)));
+    assert (N>(nd_num+(den!=1 ? nd_den+1 : 0)+(num<0 ? 1 : 0)));
 
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -142,8 +142,8 @@ private:
     return n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From 558317395abdd4dadd858992f7eeac0cd55b14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 17/42] fix: ScalingFactor::string_repr prints the whole
 exponent

---
 src/core/ekat_scaling_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..1363a35 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
-- 
2.43.0


From 950c550b796a6ca692b8af001d839755ede7c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 18/42] fix: ScalingFactor keeps track of the sign of negative
 bases in roots and comparisons

---
 src/core/ekat_scaling_factor.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 1363a35..54390aa 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -116,7 +116,10 @@ private:
     else if (b.num<0 && e.den%2==0)
       throw std::invalid_argument("[ScalingFactor] Cannot compute positive roots of negative numbers");
 
-    return e==zero ? base_and_exp{{one, one}} : base_and_exp{{b,e}};
+    // An even power does not depend on the sign of the base. Dropping the sign makes
+    // the number negative if and only if the base is, also after taking roots.
+    return e==zero ? base_and_exp{{one, one}}
+                   : (b.num<0 && e.num%2==0 ? base_and_exp{{-b,e}} : base_and_exp{{b,e}});
   }
 };
 
@@ -125,7 +128,9 @@ constexpr bool operator== (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   //    (a/b)^(c/d)==(x/y)^(w/z)
   // is equivalent to
   //    (a/b)^(cz) == (x/w)^(wd)
-  return pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
+  // provided they have the same sign (which is lost if z or d are even)
+  return (lhs.base.num<0)==(rhs.base.num<0) &&
+         pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
 }
 
 constexpr bool operator== (const ScalingFactor& lhs, const RationalConstant& rhs) {
-- 
2.43.0


From 9cef954f5c91e763394e3b4b2d4874e6e3f7745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 19/42] fix: product/ratio of a negative ScalingFactor and an
 even root must not drop the sign

---
 src/core/ekat_scaling_factor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 54390aa..cd0a8cc 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -151,8 +151,13 @@ constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor
   //    (a/b)^(c/d) * (x/y)^(w/z)
   // is equivalent to
   //    ((a/b)^(cz) * (x/y)^(wd)) ^ (1/dz)
+  // If dz is even, the sign of the base is lost, and the result is not of the form base^exp
   using iType = RationalConstant::iType;
 
+  if (lhs.base!=rhs.base && lhs.exp!=rhs.exp &&
+      (lhs.base.num<0 || rhs.base.num<0) && (lhs.exp.den*rhs.exp.den)%2==0)
+    throw std::invalid_argument("[ScalingFactor] Cannot represent product of a negative number and an even root");
+
   return lhs.base==rhs.base 
             ? ScalingFactor(lhs.base,lhs.exp+rhs.exp)
             : (lhs.exp==rhs.exp
@@ -175,8 +180,13 @@ constexpr ScalingFactor operator/ (const ScalingFactor& lhs, const ScalingFactor
   //    (a/b)^(c/d) / (x/y)^(w/z)
   // is equivalent to
   //    ((a/b)^(cz) / (x/y)^(wd)) ^ (1/dz)
+  // If dz is even, the sign of the base is lost, and the result is not of the form base^exp
   using iType = RationalConstant::iType;
 
+  if (lhs.base!=rhs.base && lhs.exp!=rhs.exp &&
+      (lhs.base.num<0 || rhs.base.num<0) && (lhs.exp.den*rhs.exp.den)%2==0)
+    throw std::invalid_argument("[ScalingFactor] Cannot represent ratio of a negative number and an even root");
+
   return lhs.base==rhs.base 
             ? ScalingFactor(lhs.base,lhs.exp-rhs.exp)
             : (lhs.exp==rhs.exp
-- 
2.43.0


From dd5251519c90828ddd2db95c6ce2b85ec912ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 20/42] fix: Units::concat_repr must not write past the array
 in release builds

---
 src/core/ekat_units.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/ekat_units.hpp b/src/core/ekat_units.hpp
index cbd4ae0..908aef8 100644
--- a/src/core/ekat_units.hpp
+++ b/src/core/ekat_units.hpp
@@ -206,9 +206,9 @@ private:
     const size_t total_len = lhs.size() + rhs.size() +
                              (comp1 ? 2 : 0) + (comp2 ? 2 : 0) +
                              (sep != '\0' ? 1 : 0);
-    // Trigger a compiler error if the name is too long.
-    assert (total_len<UNITS_MAX_STR_LEN);
-    (void)total_len;
+    // Trigger a compiler error (or an exception, if evaluated at run time) if the name is too long.
+    if (total_len>=UNITS_MAX_STR_LEN)
+      throw std::length_error("[Units] String representation is too long.");
 
     std::array<char, UNITS_MAX_STR_LEN> out = {'\0'};
 
-- 
2.43.0


From e0cf3545714a9cfa98cb070bba31c07bdc1ab4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 21/42] fix: serial Comm::reset_mpi_comm stores the
 communicator, and null ones are rejected

---
 src/core/ekat_comm_serial.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_comm_serial.cpp b/src/core/ekat_comm_serial.cpp
index 7438db1..78ec95c 100644
--- a/src/core/ekat_comm_serial.cpp
+++ b/src/core/ekat_comm_serial.cpp
@@ -15,12 +15,17 @@ Comm::Comm()
 }
 
 Comm::Comm(MPI_Comm mpi_comm)
-  : m_mpi_comm(mpi_comm), m_size(1), m_rank(0)
+  : m_size(1), m_rank(0)
 {
+  reset_mpi_comm (mpi_comm);
 }
 
-void Comm::reset_mpi_comm (MPI_Comm /* new_mpi_comm */)
+void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 {
+  EKAT_REQUIRE_MSG (new_mpi_comm!=MPI_COMM_NULL,
+      "Error! ekat::Comm requires non-null MPI comm.");
+
+  m_mpi_comm = new_mpi_comm;
 }
 
 void Comm::barrier () const
-- 
2.43.0


From 10f7ead830f722357a8fc7e942c123b852d6be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 22/42] fix: the default FPE mask of the test session did not
 compile without <cfenv>

---
 src/testing-support/ekat_test_session.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/testing-support/ekat_test_session.cpp b/src/testing-support/ekat_test_session.cpp
index c751d18..38530a4 100644
--- a/src/testing-support/ekat_test_session.cpp
+++ b/src/testing-support/ekat_test_session.cpp
@@ -5,6 +5,9 @@
 #include "ekat_fpe.hpp"
 #include "ekat_arch.hpp"
 
+#include <cfenv>  // For FE_* macros
+#include <cstdio>
+
 void ekat_initialize_test_session (int argc, char** argv, const bool print_config) {
 #ifdef EKAT_HAS_KOKKOS
   ekat::initialize_kokkos_session (argc,argv,print_config);
-- 
2.43.0


From 3c4bab9ef000692c0cbf8c0eb658b9acbe5cad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 23/42] fix: ScalarTraits of a const volatile type was
 ambiguous

---
 src/core/ekat_scalar_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_scalar_traits.hpp b/src/core/ekat_scalar_traits.hpp
index 46db58c..8a5b383 100644
--- a/src/core/ekat_scalar_traits.hpp
+++ b/src/core/ekat_scalar_traits.hpp
@@ -56,6 +56,9 @@ struct ScalarTraits<const T> : ScalarTraits<T> {};
 template<typename T>
 struct ScalarTraits<volatile T> : ScalarTraits<T> {};
 
+template<typename T>
+struct ScalarTraits<const volatile T> : ScalarTraits<T> {};
+
 template<typename T>
 struct ScalarTraits<T&> : ScalarTraits<T> {};
 
-- 
2.43.0


From d90403017c7900461b04887d979d3e9270cfb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 24/42] fix: tridiag::cr did not compile, or lost precision,
 with X of another value type

The interface allows the value type of X to differ from that of the matrix.
The partial sums of the backward pass were kept in the matrix value type, and
the determinant and the right-hand sides were declared with one auto, which
requires them to be of one type.
---
 src/algorithm/ekat_tridiag.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..e79a2b6 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -388,7 +388,6 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 1>::type* = 0,
          typename std::enable_if<DataArray::rank == 1>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
   const int nrow = d.extent_int(0);
   assert(dl.extent_int(0) == nrow);
   assert(d. extent_int(0) == nrow);
@@ -428,9 +427,9 @@ void cr (const TeamMember& team,
     if (os >= nrow) {
       X(0) /= d(0);
     } else {
-      const auto
-        det = d(0)*d(os) - du(0)*dl(os),
-        x0 = X(0), x1 = X(os);
+      const auto det = d(0)*d(os) - du(0)*dl(os);
+      const auto x0 = X(0);
+      const auto x1 = X(os);
       X( 0) = (d(os)*x0 - du( 0)*x1)/det;
       X(os) = (d( 0)*x1 - dl(os)*x0)/det;
     }
@@ -446,7 +445,7 @@ void cr (const TeamMember& team,
       const int im = i - os;
       const int ip = i + os;
       assert(im >= 0 || ip < nrow);
-      Scalar f = 0;
+      decltype(dl(i)*X(im)) f = 0;
       f += im >=   0 ? dl(i)*X(im) : 0;
       f += ip < nrow ? du(i)*X(ip) : 0;
       X(i) = (X(i) - f)/d(i);
@@ -511,9 +510,9 @@ void cr (const TeamMember& team,
         X(0,j) /= d(0);
     } else {
       for (int j = team_tid; j < nrhs; j += team_size) {
-        const auto
-          det = d(0)*d(os) - du(0)*dl(os),
-          x0 = X(0,j), x1 = X(os,j);
+        const auto det = d(0)*d(os) - du(0)*dl(os);
+        const auto x0 = X(0,j);
+        const auto x1 = X(os,j);
         X( 0,j) = (d(os)*x0 - du( 0)*x1)/det;
         X(os,j) = (d( 0)*x1 - dl(os)*x0)/det;
       }
@@ -531,7 +530,7 @@ void cr (const TeamMember& team,
         const int ip = i + os;
         assert(im >= 0 || ip < nrow);
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          decltype(dl(i)*X(im,j)) f = 0;
           f += im >=   0 ? dl(i)*X(im,j) : 0;
           f += ip < nrow ? du(i)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i);
@@ -549,7 +548,6 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 2>::type* = 0,
          typename std::enable_if<DataArray::rank == 2>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
   const int nrow = d.extent_int(0);
   const int nrhs = X.extent_int(1);
   assert(dl.extent_int(1) == nrhs);
@@ -595,9 +593,9 @@ void cr (const TeamMember& team,
         X(0,j) /= d(0,j);
     } else {
       for (int j = team_tid; j < nrhs; j += team_size) {
-        const auto
-          det = d(0,j)*d(os,j) - du(0,j)*dl(os,j),
-          x0 = X(0,j), x1 = X(os,j);
+        const auto det = d(0,j)*d(os,j) - du(0,j)*dl(os,j);
+        const auto x0 = X(0,j);
+        const auto x1 = X(os,j);
         X( 0,j) = (d(os,j)*x0 - du( 0,j)*x1)/det;
         X(os,j) = (d( 0,j)*x1 - dl(os,j)*x0)/det;
       }
@@ -617,7 +615,7 @@ void cr (const TeamMember& team,
         const bool im_ok = im >= 0;
         const bool ip_ok = ip < nrow;
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          decltype(dl(i,j)*X(im,j)) f = 0;
           f += im_ok ? dl(i,j)*X(im,j) : 0;
           f += ip_ok ? du(i,j)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i,j);
-- 
2.43.0


From 07be73ffd37f7b47e839b53acc6bedee6ae1619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 25/42] fix: sequential thomas solvers ignored the row stride
 of their arguments

A LayoutRight view of rank 2 can have rows farther apart than its number of
columns, e.g., a subview of some of the columns of another view. The pointer-based
solvers assumed packed rows and solved, and overwrote, the wrong elements.
---
 src/algorithm/ekat_tridiag.hpp | 52 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index e79a2b6..ef39fd5 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -226,26 +226,28 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
     X[i-1] = (X[i-1] - du[i-1] * X[i]) / d[i-1];
 }
 
+// In the following, ld* is the distance between consecutive rows. It can exceed
+// nrhs, e.g., if the array is a subview of some of the columns of another.
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
@@ -254,16 +256,15 @@ void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs,
+                  const int lddl, const int ldd, const int lddu, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*lddl;
+    auto* const di = d + i*ldd;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +272,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ldd;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +357,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    X.stride_0());
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +376,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    dl.stride_0(), d.stride_0(), du.stride_0(), X.stride_0());
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From 94fb920b9e0edd1c1c56d225a0c9671f286a56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 26/42] fix: scalarize and repack ignored the first stride of a
 slice

The first stride of a LayoutRight view exceeds the product of its other extents
if the view is a slice of another one (Kokkos::subview of some columns,
ekat::subview_1). The returned view addressed the wrong elements.
---
 src/pack/ekat_pack_kokkos.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index 937807c..98b580a 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -167,6 +167,33 @@ adj_diff(const Kokkos::View<ScalarT*,Props...>& v, int index)
   return adj_diff<Forward>(v,index,v.size());
 }
 
+namespace impl {
+
+// Return dst with the first stride of src, where both have the same rank and address
+// the same memory. The first stride of a LayoutRight view exceeds the product of the
+// other extents if the view is a slice of another one.
+template <typename DstView, typename SrcView>
+KOKKOS_INLINE_FUNCTION
+DstView copy_stride_0 (const DstView& dst, const SrcView& src)
+{
+  if constexpr (std::is_same<typename DstView::traits::array_layout,Kokkos::LayoutRight>::value &&
+                (DstView::rank>1) && (DstView::rank_dynamic>0)) {
+    constexpr size_t src_size = sizeof(typename SrcView::traits::value_type);
+    constexpr size_t dst_size = sizeof(typename DstView::traits::value_type);
+    constexpr size_t mul = src_size>dst_size ? src_size/dst_size : 1;
+    constexpr size_t div = dst_size>src_size ? dst_size/src_size : 1;
+    EKAT_KERNEL_REQUIRE_MSG (src.stride_0() % div == 0,
+        "Error! Cannot pack input view, as the pack size does not divide the first stride.\n");
+    auto vm = dst.impl_map();
+    vm.m_impl_offset.m_stride = src.stride_0()*mul/div;
+    return DstView(dst.impl_track(),vm);
+  } else {
+    return dst;
+  }
+}
+
+}
+
 // Turn a View of Packs into a View of scalars.
 // Example: const auto b = scalarize(a);
 
@@ -240,7 +267,7 @@ KOKKOS_FORCEINLINE_FUNCTION
 auto scalarize (const Kokkos::View<DataType,Props...>& v)
 {
   using value_t = std::remove_cv_t<std::remove_reference_t<decltype(*v.data())>>;
-  return ScalarizeHelper<value_t>::scalarize(v);
+  return impl::copy_stride_0(ScalarizeHelper<value_t>::scalarize(v),v);
 }
 
 // Turn a View of Pack<T,M>s into a View of Pack<T,N>s,
@@ -279,7 +306,7 @@ auto repack (const Kokkos::View<DT,Props...>& src)
   }
   layout.dimension[rank-1] = ekat::PackInfo<N>::num_packs(src.extent(rank-1));
   
-  return dst_view_t(packed_data,layout);
+  return impl::copy_stride_0(dst_view_t(packed_data,layout),src);
 }
 
 //
-- 
2.43.0


From 4c8865925ae6df707b959dbf00929fe1ed716a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 27/42] fix: assigning a parameter list merged it into the old
 content

---
 src/core/ekat_parameter_list.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..c0f6377 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -21,14 +21,13 @@ ParameterList (const ParameterList& src)
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
+    // Copy first, since src may be (nested in) one of our sublists
+    auto params   = src.m_params;
+    auto sublists = src.m_sublists;
 
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
+    m_name = src.m_name;
+    m_params.swap(params);
+    m_sublists.swap(sublists);
   }
   return *this;
 }
@@ -73,7 +72,9 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    auto& my_sl = m_sublists[name];
+    my_sl.m_name = sl.m_name;
+    my_sl.import(sl);
   }
   for (const auto& [name,p] : src.m_params) {
     m_params[name] = p;
-- 
2.43.0


From ed8b3ebf9accd123f53178b2d808b6decfe48b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 28/42] fix: factories with a key that cannot be added to a
 string did not compile

---
 src/core/ekat_factory.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_factory.hpp b/src/core/ekat_factory.hpp
index 1803150..b9c90c8 100644
--- a/src/core/ekat_factory.hpp
+++ b/src/core/ekat_factory.hpp
@@ -65,6 +65,17 @@ public:
   void clean_up () { m_register.clear(); }
 
 private:
+  // Key types need not be convertible to string, nor overload the '<<' operator
+  static std::string print_key (const key_type& key) {
+    std::stringstream ss;
+    if constexpr (StreamExists<key_type>::value) {
+      ss << key;
+    } else {
+      ss << typeid(key_type).name();
+    }
+    return ss.str();
+  }
+
   std::string print_registered_products () const {
     return print_registered_products_impl<StreamExists<key_type>::value>();
   }
@@ -140,7 +151,7 @@ create (const key_type& key,ConstructorArgs&& ...args)
   // Check that the requested product is registered
   EKAT_REQUIRE_MSG(it!=m_register.end(),
                      "[" + m_factory_name + "] Error!\n"
-                     "        The key '" + key + "' is not associated to any registered product.\n"
+                     "        The key '" + print_key(key) + "' is not associated to any registered product.\n"
                      "        The list of registered product is: " + print_registered_products() + "\n"
                      "        Did you forget to register it?\n");
 
-- 
2.43.0


From 7b5139aae3dc1b7148874fa39612c35138040cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 29/42] fix: dereferencing a map_key_iterator did not compile

---
 src/core/ekat_std_map_key_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..772d7f9 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,9 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  // Note: the keys of a map cannot be modified
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0


From f973e16b2e285450e92e4d543a21368753f74f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 30/42] fix: zip_iterator did not compile

---
 src/core/ekat_zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 2f1bb41..477a085 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -59,9 +59,9 @@ private:
 };
 
 template <typename... Iterators>
-ZipIterator<Iterators...> zip_iterator (std::tuple<Iterators...> iters)
+ZipIterator<std::tuple<Iterators...>> zip_iterator (std::tuple<Iterators...> iters)
 {
-  return ZipIterator<Iterators...> (iters);
+  return ZipIterator<std::tuple<Iterators...>> (iters);
 }
 
 template <typename... Containers>
-- 
2.43.0


From 593299da2499d8643577e328a6352111748da86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 31/42] fix: zip gave dangling references for iterators that
 return temporaries

---
 src/core/ekat_zip.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 477a085..ae12a30 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -33,7 +33,9 @@ public:
   // Dereference operator
   decltype(auto) operator*() {
     return std::apply([](Iterators... its){
-      return std::forward_as_tuple(*its...);
+      // Do not use std::forward_as_tuple: if *it is a temporary (e.g., for
+      // vector<bool>), it must be stored in the tuple, or it would be dangling
+      return std::tuple<decltype(*its)...>(*its...);
     },iterators);
   }
 
-- 
2.43.0


From d8da12d2c4d8099db8491665b5631364653a9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 32/42] fix: trim read past the end of the string when trimming
 null characters

---
 src/core/ekat_string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..579fc11 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -40,11 +40,11 @@ std::string trim (const std::string& s, const char c) {
   if (s=="") {
     return s;
   }
+  int size = s.size();
   int nl = 0;
-  while (s[nl] == c) {
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
   while (nt<size && s[size-nt-1] == c) {
     ++nt;
-- 
2.43.0


From 06151ce13488da4e2f978c75c6a934096035b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 33/42] fix: malformed nested lists were accepted

---
 src/core/ekat_string_utils.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 579fc11..bcc13bc 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -132,6 +132,22 @@ bool valid_nested_list_format (const std::string& str)
   size_t pos = str.find_first_of(separators,start);
 
   while (pos!=npos) {
+    // Nothing can follow the end of the outermost list
+    if (num_open==0) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' continues after the list is closed.\n";
+#endif
+      return false;
+    }
+
+    // After a close we need a ',' or another close, not a name
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry right after a close.\n";
+#endif
+      return false;
+    }
+
     if (last_match==open && str[pos]==',' && pos==start) {
 #ifdef DEBUG_OUTPUT
       std::cout << "Input string '" << str << "' contains a comma right after an open.\n";
-- 
2.43.0


From 04a3ecb4a08b9dfca5e8a14f19b81e7acbccd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 34/42] fix: gather_tokens left part of an atomic token at the
 end of the string

---
 src/core/ekat_string_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index bcc13bc..80fcd7a 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -424,7 +424,8 @@ std::list<std::string> gather_tokens(const std::string& s,
 
     std::string s_mod(s);
     auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
+    // Remove one delimiter too (the one after at the start, the one before elsewhere)
+    auto erase_len   = alen+1;
     s_mod.erase(erase_begin,erase_len);
 
     // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-- 
2.43.0


From ff2b6161148de754c0990d99c84d808f9d660471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 35/42] fix: jaccard_similarity printed a debugging message

---
 src/core/ekat_string_utils.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 80fcd7a..1e93e9d 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -477,9 +477,6 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
     // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
-- 
2.43.0


From 30e58ade8074f1f33f140e020e560f238b8236e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 36/42] fix: writing a double with an exponent ending in 0
 dropped that 0 (1e-10 became 0.1)

---
 src/parser/ekat_yaml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..44b6150 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -258,14 +258,18 @@ std::string write_param<double> (const double& d) {
   }
 
   // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
+  // Note: the exponent (if any) is not part of what can be clipped.
   auto s = ss.str();
+  auto exp_pos = s.find('e');
+  std::string exponent = exp_pos==std::string::npos ? "" : s.substr(exp_pos);
+  s = s.substr(0,exp_pos);
   auto start = s.find('.');
   auto last_nnz = s.substr(start+2).find_last_not_of('0');
   if (last_nnz==std::string::npos) {
     // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+    return s.substr(0,start+2) + exponent;
   }
-  return s.substr(0,start+2+last_nnz+1);
+  return s.substr(0,start+2+last_nnz+1) + exponent;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From d5c70c43bc809b4e94a40d1af2465292545e6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 37/42] fix: sequences of bools only recognized two of the
 spellings of true

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 44b6150..a5d5925 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -59,7 +59,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From 70c3d23f44eb86c5ae1b82abe0d083b7c31e6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 38/42] fix: parsing a yaml file threw on strings like --5 and
 on integers that do not fit in an int

---
 src/parser/ekat_yaml.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index a5d5925..8f2069c 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -28,12 +28,17 @@ bool is_type<bool> (const std::string& s) {
 }
 template<>
 bool is_type<int> (const std::string& s) {
-  if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
+  // An optional sign, followed by digits only
+  const std::string digits = s.substr(0,1)=="-" ? s.substr(1) : s;
+  if (digits=="" || digits.find_first_not_of("0123456789")!=std::string::npos) {
+    return false;
   }
 
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // The value must also fit in an int
+  std::istringstream is(s);
+  int i;
+  is >> i;
+  return !is.fail();
 }
 
 template<>
-- 
2.43.0


From f1d399c09dec077904ec45897c78a917d0f6b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 39/42] fix: parsing a yaml file threw on subnormal numbers

---
 src/parser/ekat_yaml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 8f2069c..c705b7c 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -72,7 +72,11 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  // Note: std::stod throws if the value is subnormal
+  std::istringstream is(s);
+  double d = 0;
+  is >> d;
+  return d;
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From 1d54f9bdc24efa46b2c67378098834d58f724dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 40/42] fix: strings that look like numbers or bools changed
 type when written to a yaml file and read back

---
 src/parser/ekat_yaml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index c705b7c..8f8b85a 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -302,6 +302,8 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
       out << YAML::Key << pname << YAML::Value;
       if (v.find('\n') != std::string::npos)
         out << YAML::Literal; // Use Literal for multiline
+      else if (is_type<bool>(v) or is_type<int>(v) or is_type<double>(v))
+        out << YAML::DoubleQuoted; // Or else it would not be read back as a string
       out << v;
     } else {
       // No match
-- 
2.43.0


From c7ab69c6d2df5d7e97c1d00d44086005e1169818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 41/42] fix: multiline strings did not read back as they were
 written to a yaml file

---
 src/parser/ekat_yaml.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 8f8b85a..a3010ea 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -285,6 +285,13 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// A literal block stores the string exactly only if the string ends with one newline,
+// and does not start with spaces (or newlines), which are part of the indentation.
+bool is_literal (const std::string& s) {
+  const auto n = s.size();
+  return n>1 && s[n-1]=='\n' && s[n-2]!='\n' && s[0]!=' ' && s[0]!='\n';
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -300,8 +307,10 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
+      if (is_literal(v))
         out << YAML::Literal; // Use Literal for multiline
+      else if (v.find('\n') != std::string::npos)
+        out << YAML::DoubleQuoted;
       else if (is_type<bool>(v) or is_type<int>(v) or is_type<double>(v))
         out << YAML::DoubleQuoted; // Or else it would not be read back as a string
       out << v;
-- 
2.43.0


From c85644e65c31042a3b527025219479952c0775c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 42/42] fix: powers of fractions and fractional exponents
 printed without parentheses stood for something else

---
 src/core/ekat_scaling_factor.hpp | 4 ++++
 src/core/ekat_units.hpp          | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index cd0a8cc..d9ec74b 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -87,6 +87,10 @@ struct ScalingFactor {
   inline std::string to_string(const Format fmt = Format::Rat) const {
     std::string s = base.to_string(fmt);
     if (exp!=RationalConstant::one()) {
+      if (base.den!=1 and fmt==Format::Rat) {
+        // (a/b)^c is not a/b^c
+        s = '(' + s + ')';
+      }
       s +=  '^';
       if (exp.den!=1 and fmt==Format::Rat) {
         s+= '(';
diff --git a/src/core/ekat_units.hpp b/src/core/ekat_units.hpp
index 908aef8..788218d 100644
--- a/src/core/ekat_units.hpp
+++ b/src/core/ekat_units.hpp
@@ -115,7 +115,8 @@ public:
       }
       s += symbols[i];
       if (m_units[i]!=RationalConstant::one()) {
-        s += "^" + m_units[i].to_string(Format::Rat);
+        const auto e = m_units[i].to_string(Format::Rat);
+        s += m_units[i].den!=1 ? "^(" + e + ")" : "^" + e;
       }
       s += " ";
     }
-- 
2.43.0

