From 076bf7410aad46ae87fde7bef9661b4177b73eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 01/23] fix: skip non-virtual arguments between virtual ones in
 multi-method dispatch

---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From bf77c6cd84098f47fb4c7faf6505353f37b001e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 02/23] fix: find all the bases of classes registered before
 the bases of their own bases

---
 include/boost/openmethod/initialize.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..7a07d89 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -592,31 +592,28 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
             if (rtc != rtb) {
                 // At compile time we collected the class as its own
                 // improper base, as per std::is_base_of. Eliminate that.
-                ++class_mark;
-                collect_transitive_bases(rtc, rtb);
+                rtc->transitive_bases.push_back(rtb);
             }
         }
     }
 
-    // At this point bases may contain duplicates, and also indirect
-    // bases. Clean that up.
-
-    std::size_t mark = ++class_mark;
+    // At this point bases may contain duplicates, and only the bases listed
+    // along with the class. Clean that up, and add the bases of the bases. This
+    // cannot be done while collecting the bases, because a class may be
+    // registered before the bases of its own bases are known.
 
     for (auto& rtc : classes) {
         decltype(rtc.transitive_bases) bases;
-        mark = ++class_mark;
+        bases.swap(rtc.transitive_bases);
+        ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
-            }
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
         }
-
-        rtc.transitive_bases.swap(bases);
     }
 
+    std::size_t mark = ++class_mark;
+
     for (auto& rtc : classes) {
         // Sort base classes by number of transitive bases. This ensures that a
         // base class is never preceded by one if its own base classes.
-- 
2.43.0


From 54c4b1c330e609799772d496470382ad05c96287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 03/23] fix: n2216 with three or more contenders, or with
 contenders returning the same type

---
 include/boost/openmethod/initialize.hpp | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 7a07d89..ec3717b 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1449,24 +1449,24 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
             return;
         }
 
+        // Eliminate the candidates that return a (proper) base of what another
+        // candidate returns.
+        auto contenders = candidates;
         remaining = 0;
 
         for (size_t i = 0; i < candidates.size(); ++i) {
-            if (candidates[i]) {
-                for (size_t j = i + 1; j < candidates.size(); ++j) {
-                    if (candidates[j]) {
-                        BOOST_ASSERT(candidates[i] != candidates[j]);
-
-                        if (candidates[i]->covariant_return_type->is_base_of(
-                                candidates[j]->covariant_return_type)) {
-                            candidates[i] = nullptr;
-                        } else if (candidates[j]
-                                       ->covariant_return_type->is_base_of(
-                                           candidates[i]
-                                               ->covariant_return_type)) {
-                            candidates[j] = nullptr;
-                        }
-                    }
+            if (!contenders[i]) {
+                continue;
+            }
+
+            for (auto other : contenders) {
+                if (other &&
+                    other->covariant_return_type !=
+                        contenders[i]->covariant_return_type &&
+                    contenders[i]->covariant_return_type->is_base_of(
+                        other->covariant_return_type)) {
+                    candidates[i] = nullptr;
+                    break;
                 }
             }
 
-- 
2.43.0


From 9866f49a29d191eff83c75244308e5aa09a61a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 04/23] fix: compare each overrider with all the others when
 looking for the best one

---
 include/boost/openmethod/initialize.hpp | 53 +++++++++++++++++++------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index ec3717b..a6287b7 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1420,30 +1420,59 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // Look for a candidate that is more specific than each of the others. Being
+    // more specific is not transitive, because unrelated classes do not count;
+    // thus a candidate cannot be ruled out before it is compared with all the
+    // others.
+    auto dominants = candidates;
+
     for (size_t i = 0; i < candidates.size(); ++i) {
-        if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
+        if (!candidates[i]) {
+            continue;
+        }
+
+        bool best = true;
+        ++remaining;
+
+        for (auto other : candidates) {
+            if (!other || other == candidates[i]) {
+                continue;
+            }
+
+            if (!is_more_specific(candidates[i], other)) {
+                best = false;
+
+                if (is_more_specific(other, candidates[i])) {
+                    dominants[i] = nullptr;
+                    break;
                 }
             }
         }
 
-        if (candidates[i]) {
+        if (best) {
+            std::fill(dominants.begin(), dominants.end(), nullptr);
+            dominants[i] = candidates[i];
+            candidates.swap(dominants);
+            pick = i;
+            remaining = 1;
+            return;
+        }
+
+        if (dominants[i] || !dominants[pick]) {
             pick = i;
-            ++remaining;
         }
     }
 
-    if (remaining <= 1) {
+    if (remaining == 0) {
         return;
     }
 
+    // Ambiguous. Eliminate the candidates dominated by another, unless they all
+    // are.
+    if (dominants[pick]) {
+        candidates.swap(dominants);
+    }
+
     if constexpr (has_option<n2216>) {
         if (!candidates[pick]->covariant_return_type) {
             return;
-- 
2.43.0


From 40da91455823137deb8c5387c4dbf5804ce2bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 05/23] fix: next only considers overriders applicable to all
 the arguments of the current one

---
 include/boost/openmethod/initialize.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index a6287b7..864dd0f 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1212,20 +1212,17 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
                 // -------------------------------------------------------------
                 // next
 
-                // First remove the dominant overriders from the overriders.
-                // Note that the dominants appear in the overriders in the same
-                // relative order.
-                auto candidate = overriders.begin();
+                // First remove the overriders that are not applicable to all the
+                // arguments the current one is applicable to. The result is
+                // thus the same for all the cells that contain it.
                 remaining = 0;
 
-                for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
-                        *candidate = nullptr;
-                    } else {
+                for (auto& candidate : overriders) {
+                    if (is_base(candidate, overrider)) {
                         ++remaining;
+                    } else {
+                        candidate = nullptr;
                     }
-
-                    ++candidate;
                 }
 
                 if (remaining == 0) {
-- 
2.43.0


From 6ffdbd647fe72cf6d0988465cb36836a2ec4437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 06/23] fix: report only the virtual arguments of a failed call

---
 include/boost/openmethod/core.hpp | 45 +++++++++++++++++++------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..f2c72d6 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1969,33 +1969,42 @@ using overrider_virtual_types = boost::mp11::mp_remove<
 
 template<class Method, class Rtti, std::size_t Index>
 struct init_bad_call {
-    template<typename Arg, typename... Args>
+    template<typename MethodArgList, typename Arg, typename... Args>
     static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
+        using namespace boost::mp11;
 
-        type_id arg_type_id;
+        if constexpr (is_virtual<mp_first<MethodArgList>>::value) {
+            type_id arg_type_id;
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
-        } else {
-            arg_type_id = Rtti::dynamic_type(arg);
-        }
+            if constexpr (is_virtual_ptr<Arg>) {
+                arg_type_id = Rtti::dynamic_type(*arg);
+            } else {
+                arg_type_id = Rtti::dynamic_type(arg);
+            }
 
-        error.types[Index] = arg_type_id;
+            error.types[Index] = arg_type_id;
 
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
+            init_bad_call<Method, Rtti, Index + 1>::template fn<
+                mp_rest<MethodArgList>>(error, args...);
+        } else {
+            fn<mp_rest<MethodArgList>>(error, args...);
+        }
     }
 
-    static auto fn(bad_call&) {
+    template<typename MethodArgList>
+    static auto fn(bad_call& error) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = Index;
     }
 };
 
 template<class Method, class Rtti>
 struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
+    template<typename MethodArgList, typename... Args>
+    static auto fn(bad_call& error, const Args&...) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = bad_call::max_types +
+            boost::mp11::mp_count_if<MethodArgList, is_virtual>::value;
     }
 };
 
@@ -2590,7 +2599,8 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, 0u>::template fn<
+            DeclaredParameters>(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2608,7 +2618,8 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, 0u>::template fn<
+            DeclaredParameters>(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 1f107592151c1c8e07e2db669dd6fbd36f4a2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 07/23] fix: missing_base reports the method's class as the
 base, the overrider's as the derived class

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 864dd0f..8eb2ec4 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -839,8 +839,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From 5ea3f4ffdedf5d3122e018ea6a6a2c93ba96a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 08/23] fix: virtual_ptr to an object with an indirect embedded
 v-table pointer does not refer to a temporary

---
 include/boost/openmethod/core.hpp         |  4 ++--
 include/boost/openmethod/inplace_vptr.hpp | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index f2c72d6..b8835fc 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..f5ab51d 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -17,6 +17,12 @@ template<class Class>
 using inplace_vptr_registry =
     decltype(boost_openmethod_registry(std::declval<Class*>()));
 
+// In presence of `indirect_vptr`, a virtual_ptr stores the address of the v-table
+// pointer, which must thus outlive the call.
+template<class Registry>
+using inplace_vptr_result = std::conditional_t<
+    Registry::has_indirect_vptr, const vptr_type&, vptr_type>;
+
 template<class>
 struct update_vptr_bases;
 
@@ -135,7 +141,8 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         boost_openmethod_vptr = nullptr;
 
     friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> detail::inplace_vptr_result<Registry> {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -246,8 +253,8 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     friend auto
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
-        const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        const Class& obj, detail::inplace_vptr_registry<Base1>* registry)
+        -> detail::inplace_vptr_result<detail::inplace_vptr_registry<Base1>> {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From 03af2844781dc7a243cc8ea8cdf043e0a8d27679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 09/23] fix: copy-assign a null smart pointer to a virtual_ptr

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index b8835fc..e36d2ac 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 2a4543044e9d8d781e57ce1081bc427e82d1dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:07 +0000
Subject: [PATCH 10/23] fix: leave a virtual_ptr unchanged if assigning an
 object of an unregistered class throws

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index e36d2ac..a595b6d 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From c3a8fb033bd44ee3b416305c95c8eca7f0d63618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 11/23] fix: casting a temporary smart virtual_ptr leaves it
 null

---
 include/boost/openmethod/core.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a595b6d..ec445b3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1762,8 +1762,11 @@ class virtual_ptr<
 
         using other_smart_ptr = typename traits::template rebind<Other>;
 
-        return virtual_ptr<other_smart_ptr, Registry>(
+        virtual_ptr<other_smart_ptr, Registry> result(
             traits::template cast<other_smart_ptr>(std::move(obj)), vp);
+        *this = nullptr;
+
+        return result;
     }
 
     //! Construct a `virtual_ptr` from a smart pointer to an object
-- 
2.43.0


From 983f98863235cb9663263c8d9f75cdbf1b92ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 12/23] fix: the registry is not initialized if an error is
 thrown while installing the new v-tables

---
 include/boost/openmethod/initialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 8eb2ec4..c6db186 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -472,6 +472,8 @@ template<class... Policies>
 template<class... Options>
 void registry<Policies...>::compiler<Options...>::initialize() {
     compile();
+    // If this is not the first call, and a policy throws, the v-tables are gone.
+    registry<Policies...>::initialized = false;
     install_global_tables();
     registry<Policies...>::initialized = true;
 }
-- 
2.43.0


From 7f147325d82952c77e6ddc0fa2399ba536634ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 13/23] fix: hash any type id, including the highest one

---
 .../boost/openmethod/policies/fast_perfect_hash.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..b5d00c9 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -183,6 +183,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
     }
 
     std::uniform_int_distribution<std::size_t> uniform_dist;
+    const auto empty_zero =
+        type_id(detail::uintptr_max ^ (detail::uintptr_max >> 1));
 
     for (std::size_t pass = 0; pass < 4; ++pass, ++M) {
         shift = 8 * sizeof(type_id) - M;
@@ -199,8 +201,11 @@ void fast_perfect_hash::fn<Registry>::initialize(
         buckets.resize(hash_size);
 
         while (attempts < 100000) {
-            std::fill(
-                buckets.begin(), buckets.end(), type_id(detail::uintptr_max));
+            // Any value is a valid type_id. Fill each bucket with a value that
+            // does not belong in it: zero always hashes to zero; and, since
+            // mult is odd, the highest bit does not.
+            std::fill(buckets.begin(), buckets.end(), type_id(0));
+            buckets[0] = empty_zero;
             ++attempts;
             ++total_attempts;
             mult = uniform_dist(rnd) | 1;
@@ -214,8 +219,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
                     min_value = (std::min)(min_value, index);
                     max_value = (std::max)(max_value, index);
 
-                    if (detail::uintptr(buckets[index]) !=
-                        detail::uintptr_max) {
+                    if (buckets[index] != (index ? type_id(0) : empty_zero)) {
                         goto collision;
                     }
 
-- 
2.43.0


From 5b33c7e84a432ba94eb7d4be12aa62538a5816ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 14/23] fix: search_error gives the number of buckets of the
 last attempt

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index b5d00c9..37b7f1b 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -241,7 +241,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = std::size_t(1) << (M - 1);
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
-- 
2.43.0


From 357faa3ce7798df4adc1b8ee2624bda08431c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 15/23] fix: accept overriders with the method's own const
 virtual_ptr& or virtual_ptr&& parameter

---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index ec445b3..040f0af 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2685,6 +2685,15 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void>
+    : std::true_type {};
+
+template<class T, class R>
+struct validate_overrider_parameter<
+    virtual_ptr<T, R>&&, virtual_ptr<T, R>&&, void> : std::true_type {};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 525e757f3ca904bd7491ceeff88c85d21e8d7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 16/23] fix: copying or assigning an object does not copy its
 embedded v-table pointer

---
 include/boost/openmethod/inplace_vptr.hpp | 31 +++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index f5ab51d..163e7d3 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -157,6 +157,20 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    //!
+    //! The vptr is not copied from the other object, which may be an instance
+    //! of a derived class.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Do nothing.
+    //!
+    //! The vptr is not changed, because the class of the object is not.
+    inplace_vptr_base& operator=(const inplace_vptr_base&) noexcept {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -193,6 +207,9 @@ class inplace_vptr_derived {
     //! Set the vptr to `Class`\'s v-table.
     inplace_vptr_derived() noexcept;
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
@@ -231,6 +248,13 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    inplace_vptr_derived& operator=(const inplace_vptr_derived&) = default;
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -267,6 +291,13 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    inplace_vptr_derived& operator=(const inplace_vptr_derived&) = default;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From 998abc874dfbcb32d0d721dfa0be9bc35ec59037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 17/23] fix: pass non-virtual rvalue references to overriders
 in C++17

---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 040f0af..3ccc9c4 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2023,7 +2023,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From 36e3ac637a1cd7267bd51bed6f6d0bab72e732c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 18/23] fix: final_virtual_ptr compares classes, not type ids,
 in runtime checks

A class may have several type ids (e.g. std::type_info objects in several
libraries); type_index identifies the class.
---
 include/boost/openmethod/core.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 3ccc9c4..fc496de 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -601,7 +601,9 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        // The same class may have several type ids.
+        if (Registry::rtti::type_index(dynamic_type) !=
+            Registry::rtti::type_index(static_type)) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From 8d9bd10c16322f5e30aa1b6ae12b1e12489cb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 19/23] fix: finalize releases the memory allocated by
 initialize

clear() keeps the capacity of the vectors.
---
 include/boost/openmethod/initialize.hpp                 | 3 ++-
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 3 ++-
 include/boost/openmethod/policies/vptr_map.hpp          | 2 +-
 include/boost/openmethod/policies/vptr_vector.hpp       | 6 ++++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index c6db186..b07e2d8 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1677,7 +1677,8 @@ auto registry<Policies...>::finalize(Options... opts) -> void {
         }
     });
 
-    dispatch_data.clear();
+    // clear() would keep the memory.
+    decltype(dispatch_data)().swap(dispatch_data);
     initialized = false;
 }
 
diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 37b7f1b..9881aa4 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -144,7 +144,8 @@ struct fast_perfect_hash : type_hash {
         //! @param options Zero or more option objects.
         template<class... Options>
         static auto finalize(const std::tuple<Options...>&) -> void {
-            detail::fast_perfect_hash_control<Registry>.clear();
+            std::vector<type_id>().swap(
+                detail::fast_perfect_hash_control<Registry>);
         }
     };
 };
diff --git a/include/boost/openmethod/policies/vptr_map.hpp b/include/boost/openmethod/policies/vptr_map.hpp
index c26e5de..60784d8 100644
--- a/include/boost/openmethod/policies/vptr_map.hpp
+++ b/include/boost/openmethod/policies/vptr_map.hpp
@@ -111,7 +111,7 @@ class vptr_map : public vptr {
         //! @param options A tuple of option objects.
         template<class... Options>
         static auto finalize(const std::tuple<Options...>&) -> void {
-            vptrs.clear();
+            decltype(vptrs)().swap(vptrs);
         }
     };
 };
diff --git a/include/boost/openmethod/policies/vptr_vector.hpp b/include/boost/openmethod/policies/vptr_vector.hpp
index 1b1a276..55f0cb8 100644
--- a/include/boost/openmethod/policies/vptr_vector.hpp
+++ b/include/boost/openmethod/policies/vptr_vector.hpp
@@ -179,9 +179,11 @@ struct vptr_vector : vptr {
             using namespace policies;
 
             if constexpr (Registry::has_indirect_vptr) {
-                detail::vptr_vector_indirect_vptrs<Registry>.clear();
+                std::vector<const vptr_type*>().swap(
+                    detail::vptr_vector_indirect_vptrs<Registry>);
             } else {
-                detail::vptr_vector_vptrs<Registry>.clear();
+                std::vector<vptr_type>().swap(
+                    detail::vptr_vector_vptrs<Registry>);
             }
         }
     };
-- 
2.43.0


From cac4a0c8e08637a3b3f406d8b72433fd571a6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 20/23] fix: options passed to initialize as lvalues are not
 ignored

---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b07e2d8..6f90a22 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1646,7 +1646,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From c4900f56b7557e30d113745ae1477ab7d7ba76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 21/23] fix: do not trace the search of hash factors if tracing
 is off

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 9881aa4..64f7ede 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -171,8 +171,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 9338471419718171cf73074d72d4f4b545847aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 22/23] fix: an error handler set by a static constructor is
 not overwritten

---
 .../openmethod/policies/default_error_handler.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/policies/default_error_handler.hpp b/include/boost/openmethod/policies/default_error_handler.hpp
index 342fc7b..bfe45f7 100644
--- a/include/boost/openmethod/policies/default_error_handler.hpp
+++ b/include/boost/openmethod/policies/default_error_handler.hpp
@@ -84,7 +84,7 @@ struct default_error_handler : error_handler {
         //! @param error The error object.
         template<class Error>
         static auto error(const Error& error) -> void {
-            handler(error_variant(error));
+            handler()(error_variant(error));
         }
 
         //! Sets the function to be called to handle errors.
@@ -96,7 +96,7 @@ struct default_error_handler : error_handler {
         //! @return The previous function.
         // coverity[auto_causes_copy]
         static auto set(function_type new_handler) -> function_type {
-            return std::exchange(handler, std::move(new_handler));
+            return std::exchange(handler(), std::move(new_handler));
         }
 
         //! The default error handler function.
@@ -117,14 +117,15 @@ struct default_error_handler : error_handler {
         }
 
       private:
-        static function_type handler;
+        // A local variable, because the handler may be set by a static
+        // constructor.
+        static auto handler() -> function_type& {
+            static function_type fn = default_handler;
+            return fn;
+        }
     };
 };
 
-template<class Registry>
-typename default_error_handler::fn<Registry>::function_type
-    default_error_handler::fn<Registry>::handler = default_handler;
-
 } // namespace boost::openmethod::policies
 
 #endif
-- 
2.43.0


From 71c5bfa4b3575a0b11831f94bc30f6ed58ac304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 23/23] fix: registry::with does not add a policy that is there
 already

Passing a policy that the registry contains already replaced it with itself,
which was mistaken for not finding any policy in the category: the policy was
added a second time.
---
 include/boost/openmethod/preamble.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..cbdc261 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -831,14 +831,12 @@ struct with_aux<Policies> {
 
 template<class Policies, class Policy, class... MorePolicies>
 struct with_aux<Policies, Policy, MorePolicies...> {
-    using replace = mp11::mp_replace_if_q<
-        Policies,
-        mp11::mp_bind_front_q<
-            mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
-        Policy>;
+    using in_category = mp11::mp_bind_front_q<
+        mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<Policies, in_category>::value,
+        mp11::mp_replace_if_q<Policies, in_category, Policy>,
+        mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0

