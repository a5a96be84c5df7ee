From 43a5642c60e09f28f99d6980e4e6813c6e6c6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 01/16] fix: compare the first name too when deciding that an
 edge operation is a no-op

is_same_vector started at index 1, so transposing to a list that differs only
in its first name was treated as the identity and silently renamed that leg.
---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..9972452 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (decltype(size1) i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From d5cd70119e157adfb5dce709d26c0221a63c3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 02/16] fix: do not read the strides before their beginning
 when a transpose is one linear copy

With line_rank == 0 the loop condition read leadings[-1] before checking line_rank.
---
 include/TAT/transpose.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/TAT/transpose.hpp b/include/TAT/transpose.hpp
index 539e81f..2f3f6cf 100644
--- a/include/TAT/transpose.hpp
+++ b/include/TAT/transpose.hpp
@@ -235,11 +235,9 @@ namespace TAT {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
          while (expect_leading *= dimensions_destination[line_rank],
-                leadings_source_by_destination[line_rank - 1] == expect_leading && leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && leadings_source_by_destination[line_rank - 1] == expect_leading &&
+                      leadings_destination[line_rank - 1] == expect_leading) {
+            // 如果line_rank减到0, 则是完全线性copy
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
@@ -356,11 +354,8 @@ namespace TAT {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
          while (expect_leading *= real_dimensions[line_rank],
-                real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
+            // 如果line_rank减到0, 则是完全线性copy
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
-- 
2.43.0


From f2e78028fa7c323148964f535365cd8a74098978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 03/16] fix: read a name of any length without overflowing a
 fixed buffer

---
 include/TAT/io.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..dcd4828 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -121,13 +121,11 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      std::string buffer;
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         buffer.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
+      name = std::move(buffer);
       return in;
    }
 
-- 
2.43.0


From 615567177e6568a41b96d1684ad7c71bfdd7371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 04/16] fix: accumulate the total charge of the new edges when
 expanding

---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..aa4a889 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -51,11 +51,13 @@ namespace TAT {
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
-- 
2.43.0


From 6b76fc17478892d6c28b1c917dc37681d0a8165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 05/16] fix: reject contracted edges of different dimension
 when there is no symmetry

---
 include/TAT/contract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..924c759 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -616,6 +616,13 @@ namespace TAT {
       if (contract_names_1.size() != common_rank || contract_names_2.size() != common_rank) {
          TAT_error("Duplicated Contract Name");
       }
+      for (const auto& [name_1, name_2] : contract_names) {
+         const auto& edge_1 = tensor_1.core->edges[tensor_1.name_to_index.at(name_1)];
+         const auto& edge_2 = tensor_2.core->edges[tensor_2.name_to_index.at(name_2)];
+         if (!(edge_1 == edge_2)) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
       // 确认fuse name即相同名称的边
       pmr::set<Name> fuse_names;
       for (const auto& name : tensor_1.names) {
-- 
2.43.0


From 38ef544e39efe20dd31d887098f4956d55017dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 06/16] fix: keep existing singular values when the remaining
 ones to choose from are all zero

---
 include/TAT/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..cce620a 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -366,7 +366,7 @@ namespace TAT {
          }
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
-            real_base_t<ScalarType> maximum_singular = 0;
+            real_base_t<ScalarType> maximum_singular = -1; // 奇异值可能为0
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
                   if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
-- 
2.43.0


From 803ba5933b8ad128581a9126569024dc569c4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 07/16] fix: do not advance past the end of the scratch buffer
 for an empty allocation

---
 include/TAT/pmr_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..7e72eff 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -150,7 +150,7 @@ namespace TAT {
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
             std::size_t aligner = 0u;
-            if (remaining_storage(alignment, aligner) < bytes) {
+            if (remaining_storage(alignment, aligner) < bytes || m_current_buffer_size < aligner) {
                aligner = 0u;
                increase_next_size_to(bytes);
                m_current_buffer = m_upstream->allocate(m_next_buffer_size, alignof(std::max_align_t));
-- 
2.43.0


From 2ec8f9c7628bfdb718dd57920b4ff73647181cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:08 +0000
Subject: [PATCH 08/16] fix: initialise the arrow of a merged edge made of no
 charged edge

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 9972452..9af5983 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -399,7 +399,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From 5a412a3a4f5e126e33ba08c420ce0c76b8f7e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 09/16] fix: identity of rank zero, of empty blocks and of
 blocks off the diagonal of the pairing

---
 include/TAT/tensor_miscellaneous.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..8fe29b1 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -185,6 +185,15 @@ namespace TAT {
    /// \private
    template<typename ScalarType, typename VectorSize>
    void set_to_identity(ScalarType* pointer, const VectorSize& dimension, const VectorSize& leading, Rank rank) {
+      if (rank == 0) {
+         *pointer = 1;
+         return;
+      }
+      for (Rank i = 0; i < rank; i++) {
+         if (dimension[i] == 0) {
+            return;
+         }
+      }
       auto current_index = VectorSize(rank, 0);
       while (true) {
          *pointer = 1;
@@ -261,6 +270,18 @@ namespace TAT {
             pair_leading.push_back(leading[std::get<0>(ordered_pair_index[i])] + leading[std::get<1>(ordered_pair_index[i])]);
             // ordered_pair_index使用较大的leading进行从大到小排序，所以pair_leading一定降序
          }
+         // 只有成对的对称性互为相反数的分块才在对角线上
+         bool on_diagonal = true;
+         for (const auto& [index_1, index_2] : ordered_pair_index) {
+            if (symmetries[index_1] + symmetries[index_2] != Symmetry()) {
+               on_diagonal = false;
+            } else if (dimension[index_1] != dimension[index_2]) {
+               TAT_error("Different Dimension in Pair of Identity");
+            }
+         }
+         if (!on_diagonal) {
+            continue;
+         }
          set_to_identity(block.data(), pair_dimension, pair_leading, half_rank);
       }
 
-- 
2.43.0


From 77bb9a830c444854132a16518f0df829f0a9e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:33 +0000
Subject: [PATCH 10/16] fix: trace of a tensor without block on the diagonal,
 and of legs of different dimension

---
 include/TAT/trace.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..5770670 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -112,14 +112,21 @@ namespace TAT {
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
-      auto& destination_block = traced_tensor.core->blocks.begin()->second;
-      // 应该只有一个边, 所以也只有一个block
-      const Size line_size = destination_block.size();
-
       for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
          // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
          auto symmetry_2 = -symmetry_1;
-         auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
+         auto found_source = merged_tensor.core->blocks.find({symmetry_1, symmetry_2, Symmetry()});
+         if (found_source == merged_tensor.core->blocks.end()) {
+            // 自由脚的对称性之和不能为零, 对角线上没有数据
+            continue;
+         }
+         if (merged_tensor.core->edges[1].map.at(symmetry_2) != dimension) {
+            TAT_error("Different Dimension to Trace");
+         }
+         const auto& source_block = found_source->second;
+         auto& destination_block = traced_tensor.core->blocks.begin()->second;
+         // 应该只有一个边, 所以也只有一个block
+         const Size line_size = destination_block.size();
          auto dimension_plus_one = dimension + 1;
          for (Size i = 0; i < dimension; i++) {
             const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
-- 
2.43.0


From 7a7655b01d1b9e30ffffea7cf2ffba50c678730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:39 +0000
Subject: [PATCH 11/16] fix: skip the colour codes printed before each block
 when reading a tensor back

---
 include/TAT/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index dcd4828..6052933 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -63,6 +63,13 @@ namespace TAT {
       in.ignore(std::numeric_limits<std::streamsize>::max(), end);
    }
 
+   // 输出分块时会带有颜色, 读入时需要跳过, 因为颜色控制符中也含有'['
+   inline void ignore_color_code(std::istream& in) {
+      if (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType>
    std::istream& scan_complex(std::istream& in, std::complex<ScalarType>& value) {
       ScalarType part;
@@ -490,6 +497,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color_code(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -534,6 +542,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color_code(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From c1d5c07beb77a9f14030b5a766e505544074f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:40 +0000
Subject: [PATCH 12/16] fix: reject duplicated names when renaming legs or
 merging a leg twice

---
 include/TAT/edge_miscellaneous.hpp | 1 +
 include/TAT/edge_operator.hpp      | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_miscellaneous.hpp b/include/TAT/edge_miscellaneous.hpp
index 67ccfc9..7c0a42f 100644
--- a/include/TAT/edge_miscellaneous.hpp
+++ b/include/TAT/edge_miscellaneous.hpp
@@ -44,6 +44,7 @@ namespace TAT {
          }
       });
       result.name_to_index = construct_name_to_index<decltype(result.name_to_index)>(result.names);
+      check_valid_name(result.names, names.size());
       return result;
    }
 
diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 9af5983..5fa86c9 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -133,7 +133,7 @@ namespace TAT {
          result.names = {new_names.begin(), new_names.end()};
          result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);
          result.core = core; // 因为是rename edge所以不拷贝
-         // check_valid_name(result.names, result.core->edges.size());
+         check_valid_name(result.names, result.core->edges.size());
          return result;
       }
 
@@ -339,6 +339,7 @@ namespace TAT {
       if (rank_at_transpose != name_before_merge.size()) {
          TAT_error("Tensor to transpose with Different Rank");
       }
+      check_valid_name(name_before_merge, rank_at_transpose);
 
       // 1.5 转置方案
       // to be easy, create name_to_index for name_3
-- 
2.43.0


From 2b6c3adac67039e2bbaffa9228ac346f32740543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:13 +0000
Subject: [PATCH 13/16] fix: contract legs whose segments match only partly

---
 include/TAT/edge_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 5fa86c9..14a899b 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -521,7 +521,8 @@ namespace TAT {
       using MapFromTransposeToSourceDestination = NormalMapFromTransposeToSourceDestination;
 #endif
       auto data_before_transpose_to_source = MapFromTransposeToSourceDestination();
-      if (!split_map.empty() || (is_fermi && !reversed_name.empty())) {
+      if (!split_map.empty() || (is_fermi && !reversed_name.empty()) || !edge_and_symmetries_to_cut_before_all.empty()) {
+         // cut可能去掉了一些symmetry, 此时core->blocks中的一些分块不再存在
          // 需要使用reversed前的symmetry，所以
          // 1. 上面判断了是否reversed为空，不然else中的edge不正确 2.下面使用edge_after_split而不是edge_before_transpose
          for (auto& [symmetries_before_transpose, size] : initialize_block_symmetries_with_check(edge_after_split)) {
-- 
2.43.0


From cdba6c7dbec4e8486e01bbe30ffc6e3fb549c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:11 +0000
Subject: [PATCH 14/16] fix: split an edge without any block into no edge

---
 include/TAT/edge_operator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 14a899b..07e8c3a 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -209,8 +209,11 @@ namespace TAT {
                loop_edge(
                      edge_list_after_split,
                      split_rank,
-                     [&this_offset]() {
-                        this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                     [&this_offset, &offset_bank]() {
+                        // 被split成零个边的边可能不含任何symmetry, 此时没有有效block
+                        if (offset_bank.find(Symmetry()) != offset_bank.end()) {
+                           this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                        }
                      },
                      []() {},
                      [&](const auto& symmetry_iterator_list, Rank minimum_changed) {
-- 
2.43.0


From 13b15ccf15aeddcdfdaeee7003abf0fd4b4a0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:21 +0000
Subject: [PATCH 15/16] fix: send_receive from a process to itself deadlocked

---
 include/TAT/mpi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/mpi.hpp b/include/TAT/mpi.hpp
index ad5a521..314b3e0 100644
--- a/include/TAT/mpi.hpp
+++ b/include/TAT/mpi.hpp
@@ -167,6 +167,10 @@ namespace TAT {
 
       template<typename Type>
       Type send_receive(const Type& value, const int source, const int destination) const {
+         if (source == destination) {
+            // 阻塞的MPI_Send不能发送给自己
+            return rank == destination ? value : Type();
+         }
          if (rank == source) {
             send(value, destination);
          }
-- 
2.43.0


From d23b5c82fa10c993a1ecb70391eec01b1f32c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:52 +0000
Subject: [PATCH 16/16] fix: split an edge into segments the tensor has no
 block for

---
 include/TAT/edge_operator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 07e8c3a..7950703 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -696,7 +696,12 @@ namespace TAT {
          // 已经获得四个symmetry, 两个offset, 两个dimension
          // 现在获得leadings和开始点
 
-         const auto& source_block = core->blocks.at(source_symmetries);
+         const auto found_source_block = core->blocks.find(source_symmetries);
+         if (found_source_block == core->blocks.end()) {
+            // split后的边可能含有原张量中没有的symmetry, 此时结果为零
+            continue;
+         }
+         const auto& source_block = found_source_block->second;
          auto& destination_block = result.core->blocks.at(destination_symmetries);
 
          Size total_source_offset = 0;
-- 
2.43.0

