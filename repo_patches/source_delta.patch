From 75d457a2492660599a73718eb3259f8d746c5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:15 +0000
Subject: [PATCH 1/9] fix: assign from a variant whose content is held in a
 heap backup

After a failed assignment a variant without a fallback type keeps its
content in a heap backup. Assigning that variant to (or swapping it with)
one holding a different internal state copied the backup_holder itself,
whose copy constructor asserts / stores a null pointer. Unwrap the holder
and assign its content instead.
---
 include/boost/variant/variant.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..ade4039 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(const detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs keeps its content in a heap backup, so assign that content:
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1922,13 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename RhsT>
+        void internal_visit(detail::variant::backup_holder<RhsT>& rhs_content, long) const
+        {
+            // rhs keeps its content in a heap backup, so move assign that content:
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From 4ca183163b426713127759d9506e6d73cac67a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 2/9] fix: default-construct the fallback type itself after a
 failed assignment

find_fallback_type yielded an MPL iterator where the fallback type was meant,
so a failed assignment created the (empty) iterator in the storage and then
marked the variant as holding the fallback type: a class-type fallback was
never constructed but later read and destroyed, a scalar one was left
indeterminate.
---
 include/boost/variant/variant.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index ade4039..e676087 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,17 @@ struct find_fallback_type_pred
     };
 };
 
+// Yields a pair of the index of the fallback type and the type itself, given
+// a pair of that index and an iterator to the type.
+template <typename Result>
+struct find_fallback_type_result
+{
+    typedef mpl::pair<
+          typename Result::first
+        , typename mpl::deref< typename Result::second >::type
+        > type;
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -209,12 +220,12 @@ public: // metafunction result
     // [...and return the results of the search:]
     typedef typename mpl::eval_if<
           is_same< second_result_it,end_it >
-        , mpl::if_<
+        , mpl::eval_if<
               is_same< first_result_it,end_it >
-            , mpl::pair< no_fallback_type,no_fallback_type >
-            , first_result_
+            , mpl::identity< mpl::pair< no_fallback_type,no_fallback_type > >
+            , find_fallback_type_result< first_result_ >
             >
-        , mpl::identity< second_result_ >
+        , find_fallback_type_result< second_result_ >
         >::type type;
 
 };
@@ -1726,7 +1737,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From 7f1d954c482753d1551e74c698aa4b9d36e72210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:28 +0000
Subject: [PATCH 3/9] fix: prefer boost::blank as the fallback type wherever it
 is listed

The search for boost::blank compared the MPL iterators with boost::blank
instead of the types they denote, so blank was never found behind another
nothrow default-constructible type, contrary to the documented preference.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index e676087..155ede4 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -176,6 +176,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_fallback_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same<t_, boost::blank> > type;
+    };
+};
+
 // Yields a pair of the index of the fallback type and the type itself, given
 // a pair of that index and an iterator to the type.
 template <typename Result>
@@ -210,7 +223,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_fallback_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 2133ff3dc4e6a12ea106464193b847e1505881db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 4/9] fix: take the address of assigned content with
 boost::addressof

A bounded type with an overloaded operator& made a cross-type assignment of a
variant without a fallback type copy from whatever the overload returned.
---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 155ede4..1048628 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -53,6 +53,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -726,7 +727,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0


From 7d93976989769554393879aa311000ba4e82ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:09 +0000
Subject: [PATCH 5/9] fix: accept four or more variants with a visitor that has
 no result_type

The constraint followed the parameter pack as a defaulted function parameter,
which makes the pack non-deduced: generic lambdas and other visitors without
result_type could be applied to exactly three variants only.
---
 .../variant/detail/multivisitors_cpp14_based.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..881e8b9 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,12 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +125,12 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0


From 76b40b926b3ad39eb14291594fb3d9a39e14fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:10 +0000
Subject: [PATCH 6/9] fix: keep the backup of a nothrow-copyable type out of
 the heap

backup_assigner decided by is_nothrow_move_constructible alone, visitation by
is_nothrow_move_constructible or has_nothrow_copy: a content whose copy cannot
throw but whose move can was backed up on the heap and then read as if it were
held in place.
---
 include/boost/variant/variant.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 1048628..1331f37 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -743,7 +743,7 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           backup_holder<LhsT>& lhs_content
-        , mpl::false_ // is_nothrow_move_constructible
+        , mpl::false_ // is_nothrow_move_constructible or has_nothrow_copy
         , long
         )
     {
@@ -780,13 +780,20 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
+        // (a content that can only be copied without throwing is not moved)
+        typedef typename mpl::if_<
+              is_nothrow_move_constructible<LhsT>
+            , LhsT&&
+            , const LhsT&
+            >::type backup_source;
+
         // Move lhs content to backup...
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              static_cast<backup_source>(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -802,7 +809,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      static_cast<backup_source>(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -817,7 +824,7 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::false_ // is_nothrow_move_constructible
+        , mpl::false_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
@@ -858,10 +865,13 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // Same condition as for never_uses_backup in visitation_impl_invoke
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_backup;
 
-        backup_assign_impl( lhs_content, nothrow_move(), 1L);
+        backup_assign_impl( lhs_content, nothrow_backup(), 1L);
     }
 
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
-- 
2.43.0


From 1f56268050cd6f7e2572d8ecc0831b3a13354217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:12 +0000
Subject: [PATCH 7/9] fix: substitute recursive_variant_ below cv-qualifiers

A cv-qualified template instance or function pointer was left unsubstituted, so
that for example const std::vector<recursive_variant_>* and
std::map<std::vector<recursive_variant_>, int> (through its allocator) kept the
placeholder.
---
 include/boost/variant/detail/substitute.hpp | 76 +++++++++++++++------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/include/boost/variant/detail/substitute.hpp b/include/boost/variant/detail/substitute.hpp
index 213259d..b2ea5ba 100644
--- a/include/boost/variant/detail/substitute.hpp
+++ b/include/boost/variant/detail/substitute.hpp
@@ -135,30 +135,66 @@ struct substitute<
         >::type...> type;
 };
 
+#define BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TEMPLATE(CV_) \
+    template < \
+          template <typename...> class F \
+        , typename... Ts \
+        , typename Dest \
+        , typename Source \
+          BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(typename Arity) \
+        > \
+    struct substitute< \
+          CV_ F<Ts...> \
+        , Dest \
+        , Source \
+          BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(Arity) \
+        > \
+    { \
+        typedef CV_ typename substitute< \
+              F<Ts...>, Dest, Source \
+            >::type type; \
+    }; \
+    /**/
+
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TEMPLATE(const)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TEMPLATE(volatile)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TEMPLATE(const volatile)
+
+#undef BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_CV_TEMPLATE
+
 //
 // function specializations
 //
-template <
-      typename R
-    , typename... A
-    , typename Dest
-    , typename Source
-    >
-struct substitute<
-      R (*)(A...)
-    , Dest
-    , Source
-      BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(mpl::int_<-1>)
-    >
-{
-private:
-    typedef typename substitute< R, Dest, Source >::type r;
+#define BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION(CV_) \
+    template < \
+          typename R \
+        , typename... A \
+        , typename Dest \
+        , typename Source \
+        > \
+    struct substitute< \
+          R (* CV_)(A...) \
+        , Dest \
+        , Source \
+          BOOST_MPL_AUX_LAMBDA_ARITY_PARAM(mpl::int_<-1>) \
+        > \
+    { \
+    private: \
+        typedef typename substitute< R, Dest, Source >::type r; \
+    \
+    public: \
+        typedef r (* CV_ type)(typename substitute< \
+              A, Dest, Source \
+            >::type...); \
+    }; \
+    /**/
 
-public:
-    typedef r (*type)(typename substitute<
-          A, Dest, Source
-        >::type...);
-};
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION( BOOST_PP_EMPTY() )
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION(const)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION(volatile)
+BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION(const volatile)
+
+#undef BOOST_VARIANT_AUX_ENABLE_RECURSIVE_IMPL_HANDLE_FUNCTION
 
 }} // namespace detail::variant
 } // namespace boost
-- 
2.43.0


From 16a624ee0b083a5beb490b622650daf867d223cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:07 +0000
Subject: [PATCH 8/9] fix: hand rvalue operands of N-ary visitation to the
 visitor itself

unwrap() moved the operand into a temporary, so visiting three or more
variants emptied every rvalue operand whatever the visitor did with it,
and the visitor was given a temporary instead of the held object.
---
 include/boost/variant/detail/multivisitors_cpp11_based.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp11_based.hpp b/include/boost/variant/detail/multivisitors_cpp11_based.hpp
index bffd088..68dd155 100644
--- a/include/boost/variant/detail/multivisitors_cpp11_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp11_based.hpp
@@ -56,7 +56,7 @@ namespace detail { namespace variant {
     }
 
     template <typename Wrapper>
-    typename enable_if_c<Wrapper::MoveSemantics, typename Wrapper::T>::type
+    typename enable_if_c<Wrapper::MoveSemantics, typename Wrapper::T>::type &&
         unwrap(Wrapper& w)
     {
         return std::move(w.v);
-- 
2.43.0


From e6790a31ab60dab7f1b93fac40dd27ae2a18a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:48 +0000
Subject: [PATCH 9/9] fix: value-initialise the content of a
 default-constructed recursive_wrapper

A default-constructed variant holds the default value of its first bounded
type; with a scalar or aggregate behind recursive_wrapper that value was
indeterminate.
---
 include/boost/variant/recursive_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/variant/recursive_wrapper.hpp b/include/boost/variant/recursive_wrapper.hpp
index f11418d..6c4ce02 100644
--- a/include/boost/variant/recursive_wrapper.hpp
+++ b/include/boost/variant/recursive_wrapper.hpp
@@ -107,7 +107,7 @@ recursive_wrapper<T>::~recursive_wrapper()
 
 template <typename T>
 recursive_wrapper<T>::recursive_wrapper()
-    : p_(new T)
+    : p_(new T())
 {
 }
 
-- 
2.43.0

