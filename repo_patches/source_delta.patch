From a636908cecf3eef3a0149dfbc4860bdcd80e890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:21 +0000
Subject: [PATCH 1/6] fix: assign from a variant whose content is held in heap
 backup

When an earlier assignment failed and left a variant's content in a heap
backup, assigning that variant (copy or move) to a variant of another
which() visited the backup_holder itself: assigner/move_assigner then
invoked backup_holder's forbidden copy constructor, which asserts or,
with NDEBUG, yields a variant without content. Unwrap the backup_holder
first, as copy_into/move_into already do.
---
 include/boost/variant/variant.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..3018014 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1779,6 +1779,12 @@ private: // helpers, for modifiers (below)
 
     public: // internal visitor interfaces
 
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
         template <typename RhsT>
         void internal_visit(const RhsT& rhs_content, int) const
         {
@@ -1897,6 +1903,12 @@ private: // helpers, for modifiers (below)
 
     public: // internal visitor interfaces
 
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
         template <typename RhsT>
         void internal_visit(RhsT& rhs_content, int) const
         {
-- 
2.43.0


From 8bd50d92c64cad0ff45ed1a2939e054e03caca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:44 +0000
Subject: [PATCH 2/6] fix: construct the fallback type itself after a failed
 assignment

find_fallback_type yields an (index, iterator) pair, but variant used the
MPL iterator as the fallback type: after a failed assignment an empty MPL
iterator was constructed in the storage and which() then named a type that
had never been constructed, whose destructor still ran later. Dereference
the iterator, and value-initialise the fallback as variant's default
constructor does.
---
 include/boost/variant/variant.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 3018014..f051e34 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1145,8 +1145,16 @@ private: // helpers, for representation (below)
 
     typedef typename fallback_type_result_::first
         fallback_type_index_;
-    typedef typename fallback_type_result_::second
-        fallback_type_;
+
+    // [fallback_type_result_::second is an iterator, unless no_fallback_type:]
+    typedef typename mpl::eval_if<
+          is_same<
+              typename fallback_type_result_::second
+            , detail::variant::no_fallback_type
+            >
+        , mpl::identity< detail::variant::no_fallback_type >
+        , mpl::deref< typename fallback_type_result_::second >
+        >::type fallback_type_;
 
     struct has_fallback_type_
         : mpl::not_<
@@ -1726,7 +1734,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From 76afbe6f352319cd048bf49f413c3e7ad6a0208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 3/6] fix: agree on which types use heap backup

backup_assigner backed up a content whose move may throw on the heap, even
when its copy constructor does not throw, while visitation treats such a
type as never using backup: after a failed assignment the backup pointer
was visited (and destroyed) as if it were the content. Back up such
content in place with its nothrow copy constructor instead, which is also
what the documentation guarantees for nothrow copyable types.
---
 include/boost/variant/variant.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index f051e34..272ec14 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -17,6 +17,7 @@
 
 #include <cstddef> // for std::size_t
 #include <new> // for placement new
+#include <utility> // for std::move_if_noexcept
 
 #include <boost/type_index.hpp>
 
@@ -761,7 +762,7 @@ private: // helpers, for visitor interface (below)
     {
         // Move lhs content to backup...
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              std::move_if_noexcept(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +778,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      std::move_if_noexcept(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -833,8 +834,11 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // [must agree with visitation_impl_invoke on which types use backup:]
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_move;
 
         backup_assign_impl( lhs_content, nothrow_move(), 1L);
     }
-- 
2.43.0


From f94935d99f59de45605fde704ab690db9d91519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:27 +0000
Subject: [PATCH 4/6] fix: prefer boost::blank as the fallback type, as
 documented

---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 272ec14..81dac34 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -177,6 +177,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -200,7 +213,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 4dea97bbc7f3430b83812f38c660f3651d21e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:56 +0000
Subject: [PATCH 5/6] fix: take the address of assigned content with
 boost::addressof

backup_assigner used the built-in & on the right-hand content, so assigning a
value of a bounded type that overloads operator& copied from whatever that
operator returned.
---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 81dac34..597083a 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -54,6 +54,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -716,7 +717,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0


From 6f4ce7d93ab1ded73cd9542518c0d0b07624e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 6/6] fix: visit four or more variants with a visitor without
 result_type (C++14)

The parameter pack of the trailing variants was followed by a defaulted
parameter, hence never deduced: apply_visitor on four or more variants did
not compile for generic lambdas and other visitors without result_type,
although the documentation gives these overloads for any number of variants.
---
 .../detail/multivisitors_cpp14_based.hpp      | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..7d1f087 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,11 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        class = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +124,11 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
-        typename boost::disable_if<
-            boost::detail::variant::has_result_type<Visitor>,
-            bool
-        >::type = true)
+    template <class Visitor, class T1, class T2, class T3, class... TN,
+        class = typename boost::disable_if<
+            boost::detail::variant::has_result_type<Visitor>
+        >::type>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0

