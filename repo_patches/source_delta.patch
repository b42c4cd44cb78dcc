From 5f1f6c8af4c8862b5296e6a06e3c7b3f91b8e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 01/16] fix: divide negative domain strides in signed
 arithmetic

---
 src/vsip/domain.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..6b83278 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,10 +207,18 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type const a) VSIP_NOTHROW
+{
+  // The stride may be negative, so the division has to be done in
+  // signed arithmetic.
+  this->stride_ /= static_cast<stride_type>(a);
+  assert(this->impl_is_valid());
+}
+
 
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
-- 
2.43.0


From 515b9fa16e5138e60e688ab6ac54ced90cb3e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 02/16] fix: pass rows and columns in order when copying
 column-major to row-major

---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From 529fcd48cf0c817aaefa2a3f5c9877ea6a342d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 03/16] fix: accumulate blocked single-precision reductions
 through the reduction functor

For vectors of 4096 elements and more, sumval, sumsqval, meanval and
meansqval ignored the stride of the argument, dropped the imaginary part
of complex results, and meansqval summed z*z instead of |z|^2.
---
 src/ovxx/reductions/reductions.hpp | 92 ++++--------------------------
 1 file changed, 12 insertions(+), 80 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..18c13d9 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -18,6 +18,7 @@
 #include <ovxx/parallel/service.hpp>
 #include <ovxx/dispatch.hpp>
 #include <ovxx/length.hpp>
+#include <algorithm>
 #if OVXX_HAVE_CVSIP
 # include <ovxx/cvsip/reductions.hpp>
 #endif
@@ -131,66 +132,6 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
-template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
-
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
-
-// Is the result averaged after summing?
-template <template <typename> class R>
-struct is_mean_based { static bool const value = false;};
-
-template<> struct is_mean_based<Mean_value> { static bool const value = true;};
-template<> struct is_mean_based<Mean_magsq_value> { static bool const value = true;};
-
-// Get either only the real part, or both real and imaginary parts, depending
-// on the destination value type.
-template <typename T1, typename T2>
-struct extract
-{
-  static void apply(T1 const& src, T2& dst) { dst = src;}
-};
-
-template <typename T1, typename T2>
-struct extract<complex<T1>, T2>
-{
-  static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
-};
-
-template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
-{
-  T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
-  return result;
-}
-
-template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
-{
-  complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
-  return result;
-}
-
 } // namespace ovxx::reduction
 
 template <template <typename> class R, typename V>
@@ -275,29 +216,20 @@ struct Evaluator<op::reduce<R>, be::generic,
       // them into smaller blocks and saving intermediate results.  This avoids
       // accuracy issues related to round-off error when single-precision
       // is used.
-      length_type const subblocks = length % max_length ?
-        length / max_length + 1 : length / max_length;
-      length_type const last_subblock_size = length % max_length ?
-        length % max_length : max_length;
-
-      vsip::dda::Data<B, vsip::dda::in> data(a);
+      typedef typename B::value_type V;
+      typename R<V>::accum_type total = R<V>::initial();
 
-      typename B::value_type result = 0;
-      index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      for (index_type begin = 0; begin < length; begin += max_length)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
-      }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
+        index_type const end = std::min(begin + max_length, length);
+        typename R<V>::accum_type state = R<V>::initial();
 
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+        PRAGMA_IVDEP
+        for (index_type i = begin; i < end; ++i)
+          state = R<V>::update(state, a.get(i));
+        total += state;
+      }
+      r = R<V>::value(total, length);
     }
   }
 };
-- 
2.43.0


From 377fba2ab015f8ed8ba002f2892456f657e7874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 04/16] fix: do not access absent user storage when admitting
 or releasing a block

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 3e452a3e79f34ddf0e89b69fffe716fba3bdd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 05/16] fix: return the patch from patch_from_global_index

---
 src/ovxx/parallel/scalar_map.hpp         | 5 +++++
 src/ovxx/parallel/subset_map_decl.hpp    | 9 +++++++++
 src/ovxx/parallel/support.hpp            | 2 +-
 src/ovxx/parallel/transpose_map_decl.hpp | 9 +++++++++
 src/vsip/impl/replicated_map.hpp         | 5 +++++
 5 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/scalar_map.hpp b/src/ovxx/parallel/scalar_map.hpp
index 687fa9f..74188ad 100644
--- a/src/ovxx/parallel/scalar_map.hpp
+++ b/src/ovxx/parallel/scalar_map.hpp
@@ -100,6 +100,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index a1f5f7b..615e88b 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -146,6 +146,15 @@ public:
     return 0;
   }
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  {
+    OVXX_DO_THROW(unimplemented(
+	      "subset_map::impl_patch_from_global_index not implemented."));
+    return 0;
+  }
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/ovxx/parallel/transpose_map_decl.hpp b/src/ovxx/parallel/transpose_map_decl.hpp
index 558eec9..7522a6a 100644
--- a/src/ovxx/parallel/transpose_map_decl.hpp
+++ b/src/ovxx/parallel/transpose_map_decl.hpp
@@ -142,6 +142,15 @@ public:
     return 0;
   }
 
+  template <dimension_type D>
+  index_type impl_patch_from_global_index(Index<D> const& /*idx*/)
+    const VSIP_NOTHROW
+  {
+    OVXX_DO_THROW(unimplemented(
+	      "transpose_map::impl_patch_from_global_index not implemented."));
+    return 0;
+  }
+
   template <dimension_type D>
   Domain<dim> impl_local_from_global_domain(index_type sb,
 					    Domain<D> const& dom)
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..4a0ec44 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -180,6 +180,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From f18615a2276f1a9f0280f622cb0a14149c140cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/16] fix: return empty domains for processors outside a
 replicated map

---
 src/vsip/impl/replicated_map.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index 4a0ec44..bc2368e 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -10,6 +10,7 @@
 #define vsip_impl_replicated_map_hpp_
 
 #include <ovxx/vector_iterator.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/parallel/service.hpp>
 #include <ovxx/parallel/map_traits.hpp>
 #include <ovxx/parallel/scalar_map.hpp>
@@ -143,28 +144,43 @@ public:
   }
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return 1;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? 0 : 1;
+  }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
   { dom_ = dom;}
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return dom_;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   template <dimension_type D1>
   ovxx::Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return extent(dom_);}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return extent(sb == no_subblock ? ovxx::empty_domain<D>() : dom_);
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    OVXX_PRECONDITION((sb == 0 && patch == 0) || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D>() : dom_;
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
-- 
2.43.0


From 2a8eb55c5545fd6e4c2cef0adc79452cb2b7fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 07/16] fix: write data received by block-vector assignments
 back to copied blocks

Persistent_data's accessor always used the policy 'in', so its sync_out()
never wrote the buffer back and elements received into a destination that
is not unit-stride were lost; it also read the block on construction, even
on a processor holding no part of it.
---
 src/ovxx/dda/persistent.hpp               | 33 ++++++++++++++++++++---
 src/ovxx/parallel/assign_block_vector.hpp |  2 +-
 src/ovxx/parallel/assign_chain.hpp        |  4 +--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/dda/persistent.hpp b/src/ovxx/dda/persistent.hpp
index 6890140..4b182bc 100644
--- a/src/ovxx/dda/persistent.hpp
+++ b/src/ovxx/dda/persistent.hpp
@@ -15,6 +15,30 @@ namespace ovxx
 {
 namespace dda
 {
+// Transfer data between a block and the buffer of its accessor.
+// There is nothing to transfer if the accessor refers to the
+// block's own storage.
+template <access_kind K>
+struct Persistent_sync
+{
+  template <typename B, typename A>
+  static void in(B const &block, A &a)
+  {
+    typedef typename A::non_const_ptr_type ptr_type;
+    if (a.cost()) block_copy(block, const_cast_<ptr_type>(a.ptr()), a.layout());
+  }
+  template <typename B, typename A>
+  static void out(A &a, B &block)
+  { if (a.cost()) block_copy(a.ptr(), a.layout(), block);}
+};
+
+template <>
+struct Persistent_sync<direct_access>
+{
+  template <typename B, typename A> static void in(B const &, A &) {}
+  template <typename B, typename A> static void out(A &, B &) {}
+};
+
 // A variant of DDA that supports longer life-times.
 // Instead of storing a block reference this data object
 // uses block_traits<B>::ptr_type to make sure the block remains
@@ -23,7 +47,10 @@ template <typename B,
          typename L  = typename dda::dda_block_layout<B>::layout_type>
 class Persistent_data
 {
-  typedef Accessor<B, L, dda::in> backend_type;
+  // The backend doesn't synchronize by itself, as neither the construction
+  // nor the destruction of this object may touch the block's data.
+  typedef Accessor<B, L, sync_policy(0)> backend_type;
+  typedef Persistent_sync<backend_type::access> sync_type;
 
 public:
 
@@ -48,8 +75,8 @@ public:
   {}
 
   ~Persistent_data() {}
-  void sync_in() { if (sync_ & dda::in) backend_.sync_in();}
-  void sync_out() { if (sync_ & dda::out) backend_.sync_out();}
+  void sync_in() { if (sync_ & dda::in) sync_type::in(*block_, backend_);}
+  void sync_out() { if (sync_ & dda::out) sync_type::out(backend_, *block_);}
 
   ptr_type ptr() { return backend_.ptr();}
   const_ptr_type ptr() const { return backend_.ptr();}
diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index a4459c4..e56d6e0 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -152,7 +152,7 @@ public:
       req_list  (),
       msg_count (0),
       src_dda_  (src_.local().block(), dda::in),
-      dst_dda_  (dst_.local().block(), dda::out)
+      dst_dda_  (dst_.local().block(), dda::inout)
   {
     OVXX_PRECONDITION(src_am_.impl_comm() == dst_am_.impl_comm());
 
diff --git a/src/ovxx/parallel/assign_chain.hpp b/src/ovxx/parallel/assign_chain.hpp
index e54b5eb..1106b61 100644
--- a/src/ovxx/parallel/assign_chain.hpp
+++ b/src/ovxx/parallel/assign_chain.hpp
@@ -261,7 +261,7 @@ public:
     OVXX_PRECONDITION(rhs_am_.impl_comm() == lhs_am_.impl_comm());
 
     chain_assign::build_dda_array<D, RHS>(rhs_, rhs_am_, rhs_dda_, dda::in);
-    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::out);
+    chain_assign::build_dda_array<D, LHS>(lhs_, lhs_am_, lhs_dda_, dda::inout);
 
     build_send_list();
     if (!disable_copy)
@@ -686,10 +686,10 @@ Assignment<D, LHS, RHS, Chained_assign>::exec_recv_list()
     lhs_dda_type* dda = lhs_dda_[(*rl_cur).subblock_];
     dda->sync_in();
     builder.stitch(dda->ptr(), (*rl_cur).chain_);
-    dda->sync_out();
 
     chain_type chain = builder.get_chain();
     comm_.recv(proc, chain);
+    dda->sync_out();
     free_chain(chain);
   }
 }
-- 
2.43.0


From e6d39ff1a25ca3b275a9524343fbceb617f3b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 08/16] fix: BLAS products of subviews and double-precision
 complex dot products

The BLAS evaluators assumed contiguous operands and results: leading
dimensions were taken from the extents rather than from the strides, the
result's minor stride was ignored, and negative strides were passed on
without moving the pointer to the lowest address. Accept only operands BLAS
can handle and leave the rest to the generic evaluators. Also keep double
precision in dot(complex<double>) and cvjdot.
---
 src/ovxx/lapack/blas.hpp | 57 +++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..88092ea 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
@@ -115,6 +115,9 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  bool notrans = transa == 'n';			\
+  if (incx < 0) x += incx * ((notrans ? n : m) - 1); \
+  if (incy < 0) y += incy * ((notrans ? m : n) - 1); \
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
@@ -215,6 +218,20 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// True if the data may be passed to BLAS as a (column-major) matrix,
+/// i.e. it has unit stride in the minor dimension and a valid leading
+/// dimension. (Subviews may have strides that BLAS can't handle.)
+template <typename D>
+inline bool
+is_valid_matrix(D const &data, bool row_major)
+{
+  dimension_type const major = row_major ? 0 : 1;
+  dimension_type const minor = row_major ? 1 : 0;
+  return data.stride(minor) == 1 &&
+    data.stride(major) >= 1 &&
+    data.stride(major) >= static_cast<stride_type>(data.size(minor));
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -421,18 +438,19 @@ struct Evaluator<op::prod, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
     // Note: gemm is used for row type and b is restricted to unit stride.
     // gemv is used for col type and can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return blas::is_valid_matrix(data_a, is_a_row) &&
+      (!is_a_row || (data_b.stride(0) == 1 && data_r.stride(0) >= 1));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -455,7 +473,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -490,10 +508,11 @@ struct Evaluator<op::prod, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
@@ -501,8 +520,8 @@ struct Evaluator<op::prod, be::blas,
     // gemm is used for col type and a is restricted to unit stride.
     // 
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return blas::is_valid_matrix(data_b, is_b_row) &&
+      (is_b_row || (data_a.stride(0) == 1 && data_r.stride(0) >= 1));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -535,7 +554,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -563,19 +582,23 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::is_valid_matrix(data_r, is_r_row) &&
+      blas::is_valid_matrix(data_a, is_a_row) &&
+      blas::is_valid_matrix(data_b, is_b_row);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -649,19 +672,23 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::in> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::is_valid_matrix(data_r, is_r_row) &&
+      blas::is_valid_matrix(data_a, is_a_row) &&
+      blas::is_valid_matrix(data_b, is_b_row);
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From dd5d522067fa02cb1dee878e1ae0390aefbc2f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 09/16] fix: freqswap<col> visits every column

The loop over the columns ran to the number of rows: matrices with more
columns than rows were only partly swapped, those with fewer were accessed
out of range.
---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From 2539eb67128784f902937b539552d75938f3436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 10/16] fix: Histogram bins of integral values and at bin
 boundaries

The bin width was truncated for integral value types, so values could be
counted in the wrong bin, be stored beyond the last bin, or cause a division
by zero. Floating point values right below a boundary were counted in the next
bin (or as overflow) because of rounding in the final addition.
---
 src/vsip/impl/signal/histo.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..0f2798b 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,19 +13,35 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <algorithm>
+#include <limits>
 
 namespace vsip
 {
 namespace impl
 {
+/// Return the bin `value` falls into: bin 0 for values below `min`, the last
+/// bin for values not below `max`, and one of `num - 2` bins of equal width
+/// otherwise.
 template <typename T>
 inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+hist_bin(T min, T max, length_type num, T value)
 {
   if (value < min) return 0;
   else if (value >= max) return num - 1;
-  else return (index_type)(((value - min) / delta) + 1);
-} 
+  index_type bin;
+  if (std::numeric_limits<T>::is_integer)
+    // The width of the bins isn't necessarily integral.
+    bin = (index_type(value) - index_type(min)) * (num - 2) /
+      (index_type(max) - index_type(min));
+  else
+  {
+    T delta = (max - min) / (num - 2);
+    bin = (index_type)((value - min) / delta);
+  }
+  // Don't let rounding errors push the value beyond the last inner bin.
+  return (std::min)(bin + 1, num - 2);
+}
 
 template <dimension_type D>
 struct Histogram_accumulator;
@@ -37,11 +53,9 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
-
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
-      index_type n = hist_bin(min, max, delta, num, input.get(i));
+      index_type n = hist_bin(min, max, num, input.get(i));
       hist.put(n, hist.get(n) + 1);
     }
   }
@@ -54,12 +68,10 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
-
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
       {
-	index_type n = hist_bin(min, max, delta, num, input.get(i, j));
+	index_type n = hist_bin(min, max, num, input.get(i, j));
 	hist.put(n, hist.get(n) + 1);
       }
   }
-- 
2.43.0


From 4afd354ee0364fa8a605f893191896a18680d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 11/16] fix: swap matrices and tensors of different dimension
 orders

swap() exchanged elements by linear position, which pairs up the wrong
elements when the two blocks have different dimension orders, and isn't
available for most subviews.
---
 src/vsip/selgen.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..f6f6afa 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -10,6 +10,7 @@
 #define vsip_selgen_hpp_
 
 #include <ovxx/block_traits.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/expr/unary.hpp>
 #include <ovxx/expr/generator.hpp>
 #include <vsip/vector.hpp>
@@ -262,13 +263,14 @@ struct Swap
   static void apply(Block1 &block1, Block2 &block2)
   {
     assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    // The blocks may have different dimension orders.
+    ovxx::Length<Block1::dim> const ext = ovxx::extent<Block1::dim>(block1);
+    for (Index<Block1::dim> idx; ovxx::valid(ext, idx); ovxx::next(ext, idx))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = ovxx::get(block1, idx);
+      ovxx::put(block1, idx, ovxx::get(block2, idx));
+      ovxx::put(block2, idx, tmp);
     }
-
   }
 };
 }
-- 
2.43.0


From b900bd5da4055ee1a65075fbcdaf9e82ace7e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 12/16] fix: Fftm by reference compares the maps of all local
 patches, along the undistributed transforms only

Processors holding no patch of a cyclically distributed matrix aborted in
global_domain(), only the first patch was compared, and real-to-complex
transforms could never be computed by reference on distributed matrices
because their input and output differ in size along the transform.
---
 src/ovxx/signal/fft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/fft.hpp b/src/ovxx/signal/fft.hpp
index 76deb69..12b59d4 100644
--- a/src/ovxx/signal/fft.hpp
+++ b/src/ovxx/signal/fft.hpp
@@ -408,7 +408,12 @@ public:
 	  out.block().map().num_subblocks(axis) != 1)
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires dimension along FFT to not be distributed"));
-      if (global_domain(in) != global_domain(out))
+      // The two have the same mapping if they agree, patch by patch (there
+      // may be none), on the rows (or columns) that are held locally.
+      bool same = num_patches(in) == num_patches(out);
+      for (index_type p = 0; same && p != num_patches(in); ++p)
+	same = global_domain(in, p)[1 - axis] == global_domain(out, p)[1 - axis];
+      if (!same)
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires input and output to have same mapping"));
     }
-- 
2.43.0


From 37d291ffd7445a8030697eb3d4a67b4844ce6044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 13/16] fix: pass the hidden string lengths ilaenv_ expects
 (random crash in qrd, svd, llsqsol, covsol)

---
 src/ovxx/lapack/flapack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..88c345a 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,8 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstddef>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +71,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // Fortran expects the lengths of its (non-terminated) strings as trailing arguments.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From 37ef3913bd9747674da58e1c61209fa2072197c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 14/16] fix: toepsol of a 1x1 system accessed an element of an
 empty vector

---
 src/vsip/impl/solver/toepsol.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..b10181c 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -64,10 +64,11 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   scalar_type beta  = 1.0;
   scalar_type scale = ovxx::math::impl_real(t.get(0));
-  T           alpha = ovxx::math::impl_conj(-r.get(0)/scale);
+  T           alpha = T();
   T           tmps; 
   
-  alpha = ovxx::math::impl_conj(-r.get(0)/scale);
+  if (n > 1)
+    alpha = ovxx::math::impl_conj(-r.get(0)/scale);
   
   y.put(0, alpha);
   x.put(0, b.get(0) / scale);
-- 
2.43.0


From 03e1b440a930dabddefcf207cee7fb6982c07366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 15/16] fix: assignment of lud, qrd, chold and svd objects did
 not compile, link or return

---
 src/ovxx/lapack/cholesky.hpp |  1 +
 src/ovxx/lapack/lu.hpp       |  4 +++-
 src/ovxx/lapack/qr.hpp       |  1 +
 src/ovxx/lapack/svd.hpp      | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..2b0c57a 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
     data_ = other.data_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..c5e1ad2 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  if (ust_ != svd_uvnos) q_ = other.q_;
+  if (vst_ != svd_uvnos) pt_ = other.pt_;
+  for (index_type i = 0; i < p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From 63665aafe8904cff12e6bc77c002d72fc3c0adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 16/16] fix: qrd::prodq of a non-square qrd_saveq1
 decomposition multiplied by a truncated Q

---
 src/ovxx/lapack/qr.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..6f2be25 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,15 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The reflectors always represent the full Q. To multiply with the
+    // leading columns of Q only, pad 'b' with zeros (or truncate the result).
+    length_type c_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type c_cols = ps == mat_lside ? b.size(1) : rows_;
+    Matrix<T, data_block_type> b_int(c_rows, c_cols, T());
+    parallel::assign_local(b_int(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   c_rows, c_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +169,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  c_rows, c_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), c_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0

