From f3886139f61878533c707eea41e4d1ca2aa0b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 01/55] fix: any: construct and assign from an lvalue stores a
 copy, not a reference

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..41761ec 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,15 +173,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 79ad2f73319abd3e6963776a1001f3cb6f2498d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 02/55] fix: any: assignment keeps the old value on failure and
 supports (self-)aliasing

---
 include/itlib/any.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 41761ec..ed6a2e6 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -166,7 +166,8 @@ public:
     }
     any(const any& o) : any(o, Alloc{}) {}
     any& operator=(const any& o) {
-        copy_from(o);
+        any copy(o, get_allocator()); // self-assignment safe and keeps our value if the copy throws
+        std::swap(m_block, copy.m_block);
         return *this;
     }
 
@@ -181,7 +182,8 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
+        any val(std::allocator_arg, get_allocator(), std::forward<T>(t)); // t may live in our value
+        std::swap(m_block, val.m_block);
         return *this;
     }
 
-- 
2.43.0


From 2fb32f10fe17c4f0639b338c3a6011e83b6e6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 03/55] fix: any: move assignment takes the allocator along
 with the block it must free

---
 include/itlib/any.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index ed6a2e6..8c3694d 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -155,6 +155,10 @@ public:
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
         reset();
+        // the block must be freed by the allocator which produced it, so take the allocator as well
+        // (reconstruct since pmr-style allocators are not assignable)
+        static_cast<Alloc*>(this)->~Alloc();
+        new (static_cast<Alloc*>(this)) Alloc(static_cast<const Alloc&>(o));
         m_block = o.m_block;
         o.m_block = nullptr;
         return *this;
-- 
2.43.0


From 23a2e514f37ed48909c58b1a7773e24e9cc5e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 04/55] fix: small_vector: inserting or erasing an empty range
 must not touch elements

---
 include/itlib/small_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..bbbdc43 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // nothing to insert
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
@@ -825,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to erase
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 3acd0cd3e57c8917183467c26d148e06f48cbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:46 +0000
Subject: [PATCH 05/55] fix: small_vector: revert to static when the size is
 exactly the static capacity

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index bbbdc43..be6c6a3 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -519,7 +519,7 @@ public:
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From fed70360f9111239eb03f8f451cc066854bbe555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 06/55] fix: small_vector: stay valid when an element
 constructor or allocation throws

---
 include/itlib/small_vector.hpp | 128 +++++++++++++++++++++------------
 1 file changed, 81 insertions(+), 47 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index be6c6a3..1dee22f 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -288,7 +288,6 @@ public:
             return *this;
         }
 
-        destroy_all();
         assign_copy(v.begin(), v.end());
 
         return *this;
@@ -318,20 +317,17 @@ public:
 
     void assign(size_type count, const T& value)
     {
-        destroy_all();
         assign_fill(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     void assign(InputIterator first, InputIterator last)
     {
-        destroy_all();
         assign_copy(first, last);
     }
 
     void assign(std::initializer_list<T> ilist)
     {
-        destroy_all();
         assign_move(ilist.begin(), ilist.end());
     }
 
@@ -583,23 +579,24 @@ public:
     iterator insert(const_iterator position, const value_type& val)
     {
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole_filler(*this, pos, 1).construct(val);
         return pos;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole_filler(*this, pos, 1).construct(std::move(val));
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
         auto pos = grow_at(position, count);
+        hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            hole.construct(val);
         }
         return pos;
     }
@@ -608,10 +605,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), np, *p);
+            hole.construct(*p);
         }
         return pos;
     }
@@ -619,11 +616,10 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            hole.construct(std::move(elem));
         }
         return pos;
     }
@@ -632,7 +628,7 @@ public:
     iterator emplace(const_iterator position, Args&&... args)
     {
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
+        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
         return pos;
     }
 
@@ -650,20 +646,20 @@ public:
     void push_back(const_reference val)
     {
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole_filler(*this, pos, 1).construct(val);
     }
 
     void push_back(T&& val)
     {
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole_filler(*this, pos, 1).construct(std::move(val));
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
+        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
         return *pos;
     }
 
@@ -685,7 +681,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -702,7 +699,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
@@ -821,6 +819,52 @@ private:
         }
     }
 
+    // fills a hole left by grow_at
+    // if it's not completely filled when destroyed (because constructing an element threw),
+    // it closes the hole, thus restoring the elements from before grow_at
+    class hole_filler
+    {
+        small_vector& m_vec;
+        T* const m_hole_begin;
+        T* const m_hole_end;
+        T* m_next;
+    public:
+        hole_filler(small_vector& vec, T* pos, size_t num)
+            : m_vec(vec)
+            , m_hole_begin(pos)
+            , m_hole_end(pos + num)
+            , m_next(pos)
+        {}
+
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+
+        template <typename... Args>
+        void construct(Args&&... args)
+        {
+            atraits::construct(m_vec.get_alloc(), m_next, std::forward<Args>(args)...);
+            ++m_next;
+        }
+
+        ~hole_filler()
+        {
+            if (m_next == m_hole_end) return; // all is well
+
+            while (m_next != m_hole_begin)
+            {
+                atraits::destroy(m_vec.get_alloc(), --m_next);
+            }
+
+            auto np = m_hole_begin;
+            for (auto p = m_hole_end; p != m_vec.m_end; ++p, ++np)
+            {
+                atraits::construct(m_vec.get_alloc(), np, std::move(*p));
+                atraits::destroy(m_vec.get_alloc(), p);
+            }
+            m_vec.m_end = np;
+        }
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         auto position = const_cast<T*>(cp);
@@ -891,66 +935,56 @@ private:
         return position;
     }
 
-    void assign_fill(size_type count, const T& value)
+    // destroy existing elements and leave the vector empty with enough capacity for count elements
+    // if allocation throws, nothing is changed
+    void prepare_assign(size_t count)
     {
         const auto cdr = choose_data(count);
 
-        m_end = cdr.ptr;
-        for (size_t i=0; i<count; ++i)
-        {
-            atraits::construct(get_alloc(), m_end, value);
-            ++m_end;
-        }
+        destroy_all();
 
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
     }
 
+    void assign_fill(size_type count, const T& value)
+    {
+        prepare_assign(count);
+
+        for (size_t i=0; i<count; ++i)
+        {
+            atraits::construct(get_alloc(), m_end, value);
+            ++m_end;
+        }
+    }
+
     template <class InputIterator>
     void assign_copy(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
+        prepare_assign(last - first);
 
-        m_end = cdr.ptr;
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, *p);
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     template <class InputIterator>
     void assign_move(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
+        prepare_assign(last - first);
 
-        m_end = cdr.ptr;
         for (auto p = first; p != last; ++p)
         {
             atraits::construct(get_alloc(), m_end, std::move(*p));
             ++m_end;
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
     }
 
     struct choose_data_result {
-- 
2.43.0


From 0d4298e1d622d9a67cfbaaacf60a961d479b1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 07/55] fix: static_vector: erasing an empty range must not
 touch elements

---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..2b9ab2b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position;
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From a3999db77ea5fbd9f2b7724b26cd6f1bdf04f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 08/55] fix: static_vector: no overflow in the capacity check
 of huge inserts

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 2b9ab2b..a532ab2 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From c2a42985c0637b3d82278866627541fba1bfc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 09/55] fix: static_vector: destroy constructed elements if a
 constructor throws

---
 include/itlib/static_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index a532ab2..1c8c0ea 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -185,27 +185,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector() // delegate so the destructor is called if an element throws
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector()
     {
         for (const auto& i : v)
         {
@@ -215,6 +220,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
-- 
2.43.0


From cdd9b2400d5dc795d582685d96bb200864de1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 10/55] fix: static_vector: no uninitialized elements left if
 inserting throws

---
 include/itlib/static_vector.hpp | 67 ++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 1c8c0ea..b9858f0 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -470,23 +470,24 @@ public:
     iterator insert(const_iterator position, const value_type& val)
     {
         auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
+        hole_filler(*this, pos, 1).construct(val);
         return pos;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
+        hole_filler(*this, pos, 1).construct(std::move(val));
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
         auto pos = grow_at(position, count);
+        hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(val);
+            hole.construct(val);
         }
         return pos;
     }
@@ -495,10 +496,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler hole(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            ::new (np) T(*p);
+            hole.construct(*p);
         }
         return pos;
     }
@@ -506,11 +507,10 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler hole(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            hole.construct(std::move(elem));
         }
         return pos;
     }
@@ -519,7 +519,7 @@ public:
     iterator emplace(const_iterator position, Args&&... args)
     {
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
+        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
         return pos;
     }
 
@@ -644,6 +644,53 @@ private:
         return position;
     }
 
+    // fills a hole left by grow_at
+    // if it's not completely filled when destroyed (because constructing an element threw),
+    // it closes the hole, thus restoring the elements from before grow_at
+    class hole_filler
+    {
+        static_vector& m_vec;
+        T* const m_hole_begin;
+        T* const m_hole_end;
+        T* m_next;
+    public:
+        hole_filler(static_vector& vec, T* pos, size_t num)
+            : m_vec(vec)
+            , m_hole_begin(pos)
+            , m_hole_end(pos + num)
+            , m_next(pos)
+        {}
+
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+
+        template <typename... Args>
+        void construct(Args&&... args)
+        {
+            ::new (m_next) T(std::forward<Args>(args)...);
+            ++m_next;
+        }
+
+        ~hole_filler()
+        {
+            if (m_next == m_hole_end) return; // all is well
+
+            while (m_next != m_hole_begin)
+            {
+                (--m_next)->~T();
+            }
+
+            auto np = m_hole_begin;
+            const auto e = m_vec.end();
+            for (auto p = m_hole_end; p != e; ++p, ++np)
+            {
+                ::new (np) T(std::move(*p));
+                p->~T();
+            }
+            m_vec.m_size = np - m_vec.begin();
+        }
+    };
+
     T* shrink_at(const T* cp, size_t num)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(num > size());
-- 
2.43.0


From 3a803a8b0c39a5ffd6bfe9881048c86564d0c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 11/55] fix: pod_vector: resize with value must only fill the
 new elements

---
 include/itlib/pod_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..c03c496 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -607,7 +607,10 @@ public:
     bool resize(size_type n, const value_type& val)
     {
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size())
+        {
+            fill(m_end, n - size(), val);
+        }
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 1c8c4c4f760bd6b948661b73a1cae9fcf0c8a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:19 +0000
Subject: [PATCH 12/55] fix: pod_vector: throw bad_alloc and stay valid when
 the allocator fails

---
 include/itlib/pod_vector.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index c03c496..0f1693f 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -115,6 +115,7 @@
 #include <cstring>
 #include <cstdint>
 #include <algorithm>
+#include <new>
 
 namespace itlib
 {
@@ -769,10 +770,15 @@ private:
     {
         if (capacity <= m_capacity) return;
 
+        const auto new_cap = get_new_capacity(capacity);
+
+        // don't point to freed memory if the allocation below fails
         a_free_begin();
+        m_begin = m_end = nullptr;
+        m_capacity = 0;
 
-        m_capacity = get_new_capacity(capacity);
-        m_begin = m_end = pointer(a_malloc(m_capacity));
+        m_begin = m_end = pointer(a_malloc(new_cap));
+        m_capacity = new_cap;
     }
 
     // fill empty vector with given value
@@ -829,13 +835,16 @@ private:
     {
         if (allocator_aligned())
         {
-            return Alloc::malloc(e2b(num_elements));
+            auto buf = Alloc::malloc(e2b(num_elements));
+            if (!buf) throw std::bad_alloc{};
+            return buf;
         }
 
         // allocate 1 alignment more than needed,
         // thus we can shift by at least one byte to get the appropriate one
         // and have 1 byte before the pointer to show us how much we shifted
         auto buf = Alloc::malloc(e2b(num_elements) + alignof(value_type));
+        if (!buf) throw std::bad_alloc{};
         return align_ptr(buf);
     }
 
@@ -843,7 +852,9 @@ private:
     {
         if (allocator_aligned())
         {
-            m_begin = pointer(Alloc::realloc(m_begin, e2b(num_elements)));
+            auto new_buf = Alloc::realloc(m_begin, e2b(num_elements));
+            if (!new_buf) throw std::bad_alloc{}; // m_begin is still valid
+            m_begin = pointer(new_buf);
         }
         else
         {
-- 
2.43.0


From 0116783d15b563fd94991a874335757f077ec7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 13/55] fix: pod_vector: sizes which overflow throw bad_alloc
 instead of corrupting memory

---
 include/itlib/pod_vector.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 0f1693f..39a7c61 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -668,6 +668,8 @@ private:
 
             while (new_cap < desired_capacity)
             {
+                if (new_cap > ~size_type(0) / 4) return desired_capacity; // prevent overflow below
+
                 // grow by roughly 1.5
                 new_cap *= 3;
                 ++new_cap;
@@ -686,6 +688,8 @@ private:
         const auto s = size();
         auto offset = cp - m_begin;
 
+        if (num > ~size_type(0) - s) throw std::bad_alloc{};
+
         if (cp == m_end)
         {
             resize(s + num);
@@ -831,8 +835,16 @@ private:
         return fix;
     }
 
+    // throw if the size in bytes is not representable
+    void check_alloc_size(size_type num_elements) const
+    {
+        if (num_elements > (Alloc::max_size() - alignof(value_type)) / sizeof(T)) throw std::bad_alloc{};
+    }
+
     void* a_malloc(size_type num_elements)
     {
+        check_alloc_size(num_elements);
+
         if (allocator_aligned())
         {
             auto buf = Alloc::malloc(e2b(num_elements));
@@ -850,6 +862,8 @@ private:
 
     void a_realloc_begin(size_type num_elements)
     {
+        check_alloc_size(num_elements);
+
         if (allocator_aligned())
         {
             auto new_buf = Alloc::realloc(m_begin, e2b(num_elements));
@@ -878,6 +892,8 @@ private:
 
     bool a_expand_begin(size_type num_elements)
     {
+        check_alloc_size(num_elements);
+
         if (allocator_aligned())
         {
             if (!Alloc::expand(m_begin, e2b(num_elements))) return false;
-- 
2.43.0


From 915a67f62c06e79122d12b9e6fa382a01b6906ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 14/55] fix: small_vector: sizes which overflow throw instead
 of corrupting memory or hanging

---
 include/itlib/small_vector.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 1dee22f..e2f46e9 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -155,6 +155,7 @@
 #include <type_traits>
 #include <cstddef>
 #include <memory>
+#include <new>
 
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_NONE  0
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_THROW 1
@@ -763,6 +764,7 @@ private:
         if (num == 0) return position; // nothing to insert
 
         const auto s = size();
+        if (num > ~size_t(0) - s) throw std::bad_alloc(); // overflow
         const auto cdr = choose_data(s + num);
 
         if (cdr.ptr == m_begin)
@@ -1003,6 +1005,13 @@ private:
             {
                 while (ret.cap < desired_capacity)
                 {
+                    if (ret.cap > ~size_t(0) / 4)
+                    {
+                        // prevent overflow below
+                        ret.cap = desired_capacity;
+                        break;
+                    }
+
                     // grow by roughly 1.5
                     ret.cap *= 3;
                     ++ret.cap;
-- 
2.43.0


From eab9e71c6254e69e69936d5fb8790e01df55801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 15/55] fix: expected: unexpected(lvalue) must not move from
 the lvalue

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..beffe5e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 3cbc9f3954b6b7bc32a06e294bfd50114356e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 16/55] fix: expected<void, E>: move assignment between values
 must not touch the error

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index beffe5e..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From d3d7e5c50e81173a49013c67c36e5831942b40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 17/55] fix: expected<T, void>: copy assignment stays valid if
 copying the value throws

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..149f08e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
+            ::new (&m_value) T(other.m_value); // may throw
             m_has_value = true;
-            ::new (&m_value) T(other.m_value);
         }
         return *this;
     }
-- 
2.43.0


From 50e4dab360a7a8e6d2b030a55652b806f61c8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 18/55] fix: dynamic_bitset: failed resize must not change the
 size

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..0dbb27e 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -260,8 +260,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
+        m_buf.resize(word_size(size)); // may throw
         m_size = size;
-        m_buf.resize(word_size(size));
     }
     void push_back(bool b)
     {
-- 
2.43.0


From 4555311021a3ddd3c2ad771e1a011c508999a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 19/55] fix: dynamic_bitset: copy of a tail which straddles two
 source words

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 0dbb27e..1be2929 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type tail = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits straddle two words of the source
+            tail |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (tail & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From 7cd62a1ac7df7a9b490b33369820998b90e7d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 20/55] fix: generator: self move assignment must not destroy
 the coroutine twice

---
 include/itlib/generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..9aaf462 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,6 +152,7 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        if (this == &other) return *this; // prevent self usurp
         if (m_handle) m_handle.destroy();
         m_handle = std::exchange(other.m_handle, nullptr);
         return *this;
-- 
2.43.0


From 9e6657bc26ee1bdd6d2446c16723fe1cf4f93880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 21/55] fix: data_mutex: don't unlock a mutex whose lock
 function threw

---
 include/itlib/data_mutex.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..06f0d3a 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -75,8 +75,7 @@ public:
     class lock_base_t {
     protected:
         Mutex& m_mutex;
-        CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
+        CT* m_data = nullptr; // non-null only when the mutex is locked
         lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
-            this->m_mutex.lock();
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
+            this->m_mutex.lock(); // may throw
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
-            this->m_mutex.lock();
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
+            this->m_mutex.lock(); // may throw
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
-            this->m_mutex.lock_shared();
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
+            this->m_mutex.lock_shared(); // may throw
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From 48157676ac1d5ed837b10acc55469a61eb705466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 22/55] fix: atomic_shared_ptr_storage: don't destroy the
 expected object inside the lock

---
 include/itlib/atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..554accf 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr current; // destroyed outside of the lock
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            current = m_ptr;
         }
+        // overwriting expect may destroy an object, so it must not happen inside the lock
+        expect.swap(current);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From 82e0908eda272abf594aef8cb283166b961a7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 23/55] fix: atomic_shared_ptr_storage: compare_exchange must
 also compare ownership

---
 include/itlib/atomic_shared_ptr_storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index 554accf..7efa0e8 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -122,7 +122,8 @@ public:
         sptr current; // destroyed outside of the lock
         {
             asps_spinlock::lock_guard _l(m_spinlock);
-            if (m_ptr == expect) {
+            // as with atomic<shared_ptr>, equivalent means same pointer and same owner
+            if (m_ptr == expect && !m_ptr.owner_before(expect) && !expect.owner_before(m_ptr)) {
                 m_ptr.swap(ptr);
                 return true;
             }
-- 
2.43.0


From d49cf063ef52971b672bb205b60bcb19eda08e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 24/55] fix: strftime: formats with an empty result must not
 grow the buffer forever

---
 include/itlib/time_t.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..888e156 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,14 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // append a char to the format, so as to have a non-empty result even if the original one is empty
+    // otherwise we won't be able to tell an empty result from an insufficient buffer
+    const std::string safe_format = std::string(format) + ' ';
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
-    ret.resize(len);
+    while ((len = std::strftime(&ret.front(), ret.size(), safe_format.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
+    ret.resize(len - 1);
     return ret;
 }
 
-- 
2.43.0


From 0ab935ec81dd8ffce1ec010fe6e6f9caa67f5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 25/55] fix: mem_ostreambuf: reusable after get_container with
 any container

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..8de2ff3 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -130,7 +130,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From 05f1b3b2535914b6b68f09e1abe2f79bbbafec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 26/55] fix: mem_streambuf: seeks outside of the buffer must
 fail

---
 include/itlib/mem_streambuf.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8de2ff3..a17c793 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -174,7 +174,9 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        const auto pos = off_type(sp);
+        if (pos < 0 || pos > off_type(m_data.size())) return pos_type(off_type(-1)); // out of range
+        this->setp(m_data.data() + pos, m_data.data() + m_data.size());
         return sp;
     }
 
@@ -240,7 +242,9 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setg(this->eback(), this->eback() + sp, this->egptr());
+        const auto pos = off_type(sp);
+        if (pos < 0 || pos > off_type(size())) return pos_type(off_type(-1)); // out of range
+        this->setg(this->eback(), this->eback() + pos, this->egptr());
         return sp;
     }
 
-- 
2.43.0


From cbe9f8eb58d87cb899b70350763a505b61c87491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 27/55] fix: redirect_rstream: restore the position of failed
 streams too and don't throw when destroyed

---
 include/itlib/rstream.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..fde2594 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -124,7 +124,19 @@ public:
 
     ~basic_redirect_rstream()
     {
-        this->m_in.seekg(m_restore);
+        try
+        {
+            if (this->m_in.fail())
+            {
+                // seekg does nothing if the stream has failed, so restore the position through the buffer
+                if (m_restore != std::streampos(-1)) this->m_in.rdbuf()->pubseekpos(m_restore, std::ios_base::in);
+            }
+            else
+            {
+                this->m_in.seekg(m_restore);
+            }
+        }
+        catch (...) {} // destructors should not throw: the failure is in the stream state
     }
 private:
     std::streampos m_restore;
-- 
2.43.0


From 761ff3d9410eaa7a77a49647499d435800ed7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 28/55] fix: pmr_allocator: allocate_object must not overflow
 the byte size

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..cf2dd03 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -48,6 +48,7 @@
 //
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -73,6 +74,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > static_cast<std::size_t>(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 5a9569e923c8a11bfb6f41742aa5371da22b17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 29/55] fix: small_vector: missing swap and non-compiling
 max_size broke flat_map, flat_set and mem_ostreambuf

---
 include/itlib/small_vector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index e2f46e9..df1ec2e 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -463,7 +463,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
@@ -705,6 +705,13 @@ public:
         }
     }
 
+    void swap(small_vector& other) noexcept
+    {
+        auto tmp = std::move(other);
+        other = std::move(*this);
+        *this = std::move(tmp);
+    }
+
     bool is_static() const
     {
         return m_begin == static_begin_ptr();
-- 
2.43.0


From 6c7d10ee566b7b119c7f6f46b3a249b66722f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 30/55] fix: flat_map, flat_set: stay ordered if copy
 assignment throws

---
 include/itlib/flat_map.hpp | 17 ++++++++++++++++-
 include/itlib/flat_set.hpp | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..0be3a82 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -195,7 +195,22 @@ public:
     {}
 
     flat_map(const flat_map& x) = default;
-    flat_map& operator=(const flat_map& x) = default;
+    flat_map& operator=(const flat_map& x)
+    {
+        if (this == &x) return *this;
+        try
+        {
+            cmp() = x.cmp();
+            m_container = x.m_container;
+        }
+        catch (...)
+        {
+            // the elements may have been partially assigned and thus unordered
+            m_container.clear();
+            throw;
+        }
+        return *this;
+    }
 
     flat_map(flat_map&& x) noexcept = default;
     flat_map& operator=(flat_map&& x) noexcept = default;
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..3d8c2b2 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -161,7 +161,22 @@ public:
     {}
 
     flat_set(const flat_set& x) = default;
-    flat_set& operator=(const flat_set& x) = default;
+    flat_set& operator=(const flat_set& x)
+    {
+        if (this == &x) return *this;
+        try
+        {
+            cmp() = x.cmp();
+            m_container = x.m_container;
+        }
+        catch (...)
+        {
+            // the elements may have been partially assigned and thus unordered
+            m_container.clear();
+            throw;
+        }
+        return *this;
+    }
 
     flat_set(flat_set&& x) noexcept = default;
     flat_set& operator=(flat_set&& x) noexcept = default;
-- 
2.43.0


From 0fbec87b9bfa1f493cd869a8c14aa385d495a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 31/55] fix: small_vector: stay valid when relocating an
 element throws

---
 include/itlib/small_vector.hpp | 219 +++++++++++++++++----------------
 1 file changed, 115 insertions(+), 104 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index df1ec2e..5dc502d 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -475,29 +475,8 @@ public:
         assert(cdr.ptr != m_begin); // should've been handled by new_cap <= m_capacity
         assert(cdr.ptr != static_begin_ptr()); // we should never reserve into static memory
 
-        auto s = size();
-
         // now we need to transfer the existing elements into the new buffer
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::construct(get_alloc(), cdr.ptr + i, std::move(*(m_begin + i)));
-        }
-
-        // free old elements
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::destroy(get_alloc(), m_begin + i);
-        }
-
-        if (!is_static())
-        {
-            // we've moved from dyn to dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_end = m_begin + s;
-        m_capacity = cdr.cap;
+        transfer(cdr, m_end, m_end, cdr.ptr + size());
     }
 
     size_t capacity() const noexcept
@@ -512,31 +491,21 @@ public:
         if (s == m_capacity) return false; // we're at max
         if (is_static()) return false; // can't shrink static buf
 
-        auto old_begin = m_begin;
-        auto old_end = m_end;
-        auto old_cap = m_capacity;
-
+        choose_data_result cdr;
         if (s <= StaticCapacity)
         {
             // revert to static capacity
-            m_begin = m_end = static_begin_ptr();
-            m_capacity = StaticCapacity;
+            cdr.ptr = static_begin_ptr();
+            cdr.cap = StaticCapacity;
         }
         else
         {
             // alloc new smaller buffer
-            m_begin = m_end = atraits::allocate(get_alloc(), s);
-            m_capacity = s;
+            cdr.ptr = atraits::allocate(get_alloc(), s);
+            cdr.cap = s;
         }
 
-        for (auto p = old_begin; p != old_end; ++p)
-        {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
-            atraits::destroy(get_alloc(), p);
-        }
-
-        atraits::deallocate(get_alloc(), old_begin, old_cap);
+        transfer(cdr, m_end, m_end, cdr.ptr + s);
         return true;
     }
 
@@ -771,66 +740,86 @@ private:
         if (num == 0) return position; // nothing to insert
 
         const auto s = size();
-        if (num > ~size_t(0) - s) throw std::bad_alloc(); // overflow
-        const auto cdr = choose_data(s + num);
+        const auto cdr = choose_data(num > ~size_t(0) - s ? ~size_t(0) : s + num); // on overflow let the allocator fail
 
         if (cdr.ptr == m_begin)
         {
             // no special transfers needed
 
-            m_end = m_begin + s + num;
+            const auto new_end = m_end + num;
 
-            for (auto p = m_end - num - 1; p >= position; --p)
+            // while moving, only the elements before m_end belong to the vector and the guard has the moved ones
+            range_guard moved(*this, new_end);
+            while (m_end != position)
             {
-                atraits::construct(get_alloc(), p + num, std::move(*p));
-                atraits::destroy(get_alloc(), p);
+                atraits::construct(get_alloc(), moved.begin - 1, std::move(*(m_end - 1)));
+                --moved.begin;
+                --m_end;
+                atraits::destroy(get_alloc(), m_end);
             }
 
+            moved.dismiss();
+            m_end = new_end;
             return position;
         }
         else
         {
             // we need to transfer the elements into the new buffer
 
-            position = cdr.ptr + (position - m_begin);
+            const auto new_position = cdr.ptr + (position - m_begin);
+            transfer(cdr, position, position, new_position + num);
+            return new_position;
+        }
+    }
 
-            auto p = m_begin;
-            auto np = cdr.ptr;
+    // destroys elements which don't belong to the vector (yet), unless dismissed
+    struct range_guard
+    {
+        small_vector& vec;
+        T* begin;
+        T* end;
 
-            for (; np != position; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-            }
+        range_guard(small_vector& v, T* p) : vec(v), begin(p), end(p) {}
+        range_guard(const range_guard&) = delete;
+        range_guard& operator=(const range_guard&) = delete;
 
-            np += num; // hole
-            for (; p != m_end; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-            }
+        void dismiss() { begin = end; }
 
-            // destroy old
-            for (p = m_begin; p != m_end; ++p)
+        ~range_guard()
+        {
+            while (end != begin)
             {
-                atraits::destroy(get_alloc(), p);
+                atraits::destroy(vec.get_alloc(), --end);
             }
+        }
+    };
 
-            if (!is_static())
-            {
-                // we've moved from dyn memory, so deallocate the old one
-                atraits::deallocate(get_alloc(), m_begin, m_capacity);
-            }
+    // frees a buffer which doesn't belong to the vector (yet), unless dismissed
+    struct buffer_guard
+    {
+        small_vector& vec;
+        T* ptr;
+        size_t cap;
 
-            m_begin = cdr.ptr;
-            m_end = m_begin + s + num;
-            m_capacity = cdr.cap;
+        buffer_guard(small_vector& v, T* p, size_t c) : vec(v), ptr(p), cap(c) {}
+        buffer_guard(const buffer_guard&) = delete;
+        buffer_guard& operator=(const buffer_guard&) = delete;
 
-            return position;
+        void dismiss() { ptr = vec.static_begin_ptr(); }
+
+        ~buffer_guard()
+        {
+            if (ptr != vec.static_begin_ptr())
+            {
+                atraits::deallocate(vec.get_alloc(), ptr, cap);
+            }
         }
-    }
+    };
 
     // fills a hole left by grow_at
     // if it's not completely filled when destroyed (because constructing an element threw),
     // it closes the hole, thus restoring the elements from before grow_at
+    // (or, if moving elements may also throw, it drops the ones after the hole)
     class hole_filler
     {
         small_vector& m_vec;
@@ -865,9 +854,13 @@ private:
             }
 
             auto np = m_hole_begin;
-            for (auto p = m_hole_end; p != m_vec.m_end; ++p, ++np)
+            for (auto p = m_hole_end; p != m_vec.m_end; ++p)
             {
-                atraits::construct(m_vec.get_alloc(), np, std::move(*p));
+                if (std::is_nothrow_move_constructible<T>::value)
+                {
+                    atraits::construct(m_vec.get_alloc(), np, std::move(*p));
+                    ++np;
+                }
                 atraits::destroy(m_vec.get_alloc(), p);
             }
             m_vec.m_end = np;
@@ -895,18 +888,19 @@ private:
         {
             // no special transfers needed
 
-            for (auto p = position, np = position + num; np != m_end; ++p, ++np)
-            {
-                atraits::destroy(get_alloc(), p);
-                atraits::construct(get_alloc(), p, std::move(*np));
-            }
+            // while moving, only the elements before m_end belong to the vector and the guard has the rest
+            range_guard rest(*this, m_end);
+            rest.begin = m_end = position;
 
-            for (auto p = m_end - num; p != m_end; ++p)
+            for (auto np = position + num; np != rest.end; ++np)
             {
-                atraits::destroy(get_alloc(), p);
+                ++rest.begin;
+                atraits::destroy(get_alloc(), m_end);
+                atraits::construct(get_alloc(), m_end, std::move(*np));
+                ++m_end;
             }
 
-            m_end -= num;
+            // here the guard destroys what remains after the moved elements
         }
         else
         {
@@ -914,31 +908,9 @@ private:
 
             assert(cdr.ptr == static_begin_ptr()); // since we're shrinking that's the only way to have a new buffer
 
-            auto p = m_begin, np = cdr.ptr;
-            for (; p != position; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
-
-            for (; p != position + num; ++p)
-            {
-                atraits::destroy(get_alloc(), p);
-            }
-
-            for (; np != cdr.ptr + s - num; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
-
-            // we've moved from dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-
-            position = cdr.ptr + (position - m_begin);
-            m_begin = cdr.ptr;
-            m_end = np;
-            m_capacity = StaticCapacity;
+            const auto new_position = cdr.ptr + (position - m_begin);
+            transfer(cdr, position, position + num, new_position);
+            position = new_position;
         }
 
         return position;
@@ -1000,6 +972,45 @@ private:
         T* ptr;
         size_t cap;
     };
+
+    // transfer the elements before prefix_end and those from suffix_begin on into a new buffer
+    // with the latter starting from new_suffix_begin there, and free the old buffer
+    // if moving an element throws, the vector keeps its current buffer
+    void transfer(const choose_data_result& cdr, T* prefix_end, T* suffix_begin, T* new_suffix_begin)
+    {
+        buffer_guard new_buffer(*this, cdr.ptr, cdr.cap);
+        range_guard prefix(*this, cdr.ptr);
+        range_guard suffix(*this, new_suffix_begin);
+
+        for (auto p = m_begin; p != prefix_end; ++p)
+        {
+            atraits::construct(get_alloc(), prefix.end, std::move(*p));
+            ++prefix.end;
+        }
+
+        for (auto p = suffix_begin; p != m_end; ++p)
+        {
+            atraits::construct(get_alloc(), suffix.end, std::move(*p));
+            ++suffix.end;
+        }
+
+        destroy_all();
+
+        if (!is_static())
+        {
+            // we've moved from dyn memory, so deallocate the old one
+            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+        }
+
+        m_begin = cdr.ptr;
+        m_end = suffix.end;
+        m_capacity = cdr.cap;
+
+        prefix.dismiss();
+        suffix.dismiss();
+        new_buffer.dismiss();
+    }
+
     choose_data_result choose_data(size_t desired_capacity)
     {
         choose_data_result ret = {m_begin, m_capacity};
-- 
2.43.0


From 8dae74142ee42bc777f1c2fb230b5a6bc9cb7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 32/55] fix: static_vector: stay valid when relocating an
 element throws

---
 include/itlib/static_vector.hpp | 73 +++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index b9858f0..013d18c 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -231,6 +231,7 @@ public:
     }
 
     static_vector(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
+        : static_vector()
     {
         for (auto i = v.begin(); i != v.end(); ++i)
         {
@@ -589,10 +590,12 @@ public:
         for (size_t i = shorter->size(); i < longer->size(); ++i)
         {
             shorter->emplace_back(std::move(longer->at(i)));
-            longer->at(i).~T();
         }
 
-        longer->m_size = short_size;
+        while (longer->m_size > short_size)
+        {
+            longer->pop_back();
+        }
     }
 
 private:
@@ -634,19 +637,49 @@ private:
         auto position = const_cast<T*>(cp);
         if (by == 0) return position;
 
-        for (auto p = end() - 1; p >= position; --p)
+        const auto new_size = m_size + by;
+
+        // while moving, only the elements up to m_size belong to the vector and the guard has the moved ones
+        range_guard moved(begin() + new_size);
+        while (end() != position)
         {
-            ::new (p + by) T(std::move(*p));
-            p->~T();
+            ::new (moved.begin - 1) T(std::move(*(end() - 1)));
+            --moved.begin;
+            --m_size;
+            end()->~T();
         }
-        m_size += by;
+
+        moved.dismiss();
+        m_size = new_size;
 
         return position;
     }
 
+    // destroys elements which don't belong to the vector (yet), unless dismissed
+    struct range_guard
+    {
+        T* begin;
+        T* end;
+
+        explicit range_guard(T* p) : begin(p), end(p) {}
+        range_guard(const range_guard&) = delete;
+        range_guard& operator=(const range_guard&) = delete;
+
+        void dismiss() { begin = end; }
+
+        ~range_guard()
+        {
+            while (end != begin)
+            {
+                (--end)->~T();
+            }
+        }
+    };
+
     // fills a hole left by grow_at
     // if it's not completely filled when destroyed (because constructing an element threw),
     // it closes the hole, thus restoring the elements from before grow_at
+    // (or, if moving elements may also throw, it drops the ones after the hole)
     class hole_filler
     {
         static_vector& m_vec;
@@ -682,9 +715,13 @@ private:
 
             auto np = m_hole_begin;
             const auto e = m_vec.end();
-            for (auto p = m_hole_end; p != e; ++p, ++np)
+            for (auto p = m_hole_end; p != e; ++p)
             {
-                ::new (np) T(std::move(*p));
+                if (std::is_nothrow_move_constructible<T>::value)
+                {
+                    ::new (np) T(std::move(*p));
+                    ++np;
+                }
                 p->~T();
             }
             m_vec.m_size = np - m_vec.begin();
@@ -706,20 +743,20 @@ private:
             return begin();
         }
 
-        const auto myend = end();
-        for (auto p = position, np = position + num; np != myend; ++p, ++np)
-        {
-            p->~T();
-            ::new (p) T(std::move(*np));
-        }
+        // while moving, only the elements up to m_size belong to the vector and the guard has the rest
+        range_guard rest(end());
+        rest.begin = position;
+        m_size = position - begin();
 
-        for (auto p = myend - num; p != myend; ++p)
+        for (auto np = position + num; np != rest.end; ++np)
         {
-            p->~T();
+            ++rest.begin;
+            end()->~T();
+            ::new (end()) T(std::move(*np));
+            ++m_size;
         }
 
-        m_size -= num;
-
+        // here the guard destroys what remains after the moved elements
         return position;
     }
 
-- 
2.43.0


From b92319c70e61b1c8a2df0c2c20cf31e229d5b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 33/55] fix: dynamic_bitset: sizes near the maximum must not
 overflow to an empty buffer

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 1be2929..bd5f6b3 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -414,7 +414,7 @@ public:
     // required word size for a given bit size
     static constexpr buffer_size_type word_size(size_type size) noexcept
     {
-        return (size + bits_per_word - 1) / bits_per_word;
+        return size / bits_per_word + (size % bits_per_word ? 1 : 0);
     }
     // index of a word in buffer for a given bit index
     static constexpr buffer_size_type word_index(size_type i) noexcept
-- 
2.43.0


From dd8a700d1f2bc9e304c5880ef9dc4b5a17fc39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 34/55] fix: dynamic_bitset: all() was always false for words
 smaller than int

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index bd5f6b3..06df357 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From 5d77a82a6b7e3a2f1ba72421846695efc72892d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 35/55] fix: pod_vector: failed assignments must keep the
 elements (dynamic_bitset relies on it)

---
 include/itlib/pod_vector.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 39a7c61..b105467 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -233,7 +233,6 @@ public:
     pod_vector& operator=(const pod_vector& other)
     {
         if (this == &other) return *this; // prevent self usurp
-        clear();
         assign_copy(other.begin(), other.end());
         return *this;
     }
@@ -776,12 +775,11 @@ private:
 
         const auto new_cap = get_new_capacity(capacity);
 
-        // don't point to freed memory if the allocation below fails
-        a_free_begin();
-        m_begin = m_end = nullptr;
-        m_capacity = 0;
+        // don't touch the existing buffer if the allocation fails
+        const auto new_buf = pointer(a_malloc(new_cap));
 
-        m_begin = m_end = pointer(a_malloc(new_cap));
+        a_free_begin();
+        m_begin = m_end = new_buf;
         m_capacity = new_cap;
     }
 
-- 
2.43.0


From b89538e14abd3929f7e31d886cd38aa9d800b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 36/55] fix: mem_ostreambuf: bulk writes longer than the range
 of int_type moved the put position wrongly

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index a17c793..e9346f1 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -167,7 +167,8 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        // no pbump here: num may not fit in its int argument
+        this->setp(this->pptr() + num, this->epptr());
 
         return num;
     }
-- 
2.43.0


From 887f285da032dccb7a1d275945fad8693a4d363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 37/55] fix: mem_istreambuf: no overflow when asked for more
 characters than fit in memory

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index e9346f1..d91267f 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -259,7 +259,7 @@ private:
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
-- 
2.43.0


From 3bd40372fba18dccc36fdefb3a8ff49f6ef3bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:37 +0000
Subject: [PATCH 38/55] fix: transparent_umap: make try_emplace with a hint
 return an iterator (it did not compile)

---
 include/itlib/transparent_umap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..01555ba 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -106,10 +106,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From dcf0fe4ce54aef6c1882984c914cd4a3e89dc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:59 +0000
Subject: [PATCH 39/55] fix: small_vector: inserting within a reserved capacity
 doesn't revert to the static buffer

---
 include/itlib/small_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 5dc502d..cf28ce2 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -740,7 +740,11 @@ private:
         if (num == 0) return position; // nothing to insert
 
         const auto s = size();
-        const auto cdr = choose_data(num > ~size_t(0) - s ? ~size_t(0) : s + num); // on overflow let the allocator fail
+        choose_data_result cdr = {m_begin, m_capacity}; // if the capacity is enough, stay here (only reducing the size reverts to static)
+        if (num > m_capacity - s)
+        {
+            cdr = choose_data(num > ~size_t(0) - s ? ~size_t(0) : s + num); // on overflow let the allocator fail
+        }
 
         if (cdr.ptr == m_begin)
         {
-- 
2.43.0


From 103bafa65f8487b4039c22607f05bd5860f4778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 40/55] fix: small_vector: arguments of push_back, emplace,
 insert and resize may be elements of the vector

---
 include/itlib/small_vector.hpp | 60 ++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index cf28ce2..b4cbe80 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -548,9 +548,7 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        hole_filler(*this, pos, 1).construct(val);
-        return pos;
+        return emplace(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
@@ -562,11 +560,12 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy(val); // val may be an element of this vector
         auto pos = grow_at(position, count);
         hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            hole.construct(val);
+            hole.construct(copy);
         }
         return pos;
     }
@@ -597,8 +596,24 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
+
+        // the args may refer to elements of this vector, so use them before moving any
+
+        if (size() == m_capacity)
+        {
+            return emplace_in(choose_data(size() + 1), const_cast<T*>(position), std::forward<Args>(args)...);
+        }
+
+        if (position == m_end)
+        {
+            atraits::construct(get_alloc(), m_end, std::forward<Args>(args)...);
+            return m_end++;
+        }
+
+        value_type val(std::forward<Args>(args)...);
         auto pos = grow_at(position, 1);
-        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
+        hole_filler(*this, pos, 1).construct(std::move(val));
         return pos;
     }
 
@@ -615,22 +630,18 @@ public:
 
     void push_back(const_reference val)
     {
-        auto pos = grow_at(m_end, 1);
-        hole_filler(*this, pos, 1).construct(val);
+        emplace(m_end, val);
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        hole_filler(*this, pos, 1).construct(std::move(val));
+        emplace(m_end, std::move(val));
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
-        auto pos = grow_at(m_end, 1);
-        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
-        return *pos;
+        return *emplace(m_end, std::forward<Args>(args)...);
     }
 
     void pop_back()
@@ -640,7 +651,12 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
-        reserve(n);
+        if (n > m_capacity)
+        {
+            const value_type copy(v); // v may be an element of this vector, and they are about to be moved
+            reserve(n);
+            return resize(n, copy);
+        }
 
         auto new_end = m_begin + n;
 
@@ -979,12 +995,14 @@ private:
 
     // transfer the elements before prefix_end and those from suffix_begin on into a new buffer
     // with the latter starting from new_suffix_begin there, and free the old buffer
+    // (optionally there may be elements constructed there already, then the suffix goes after them)
     // if moving an element throws, the vector keeps its current buffer
-    void transfer(const choose_data_result& cdr, T* prefix_end, T* suffix_begin, T* new_suffix_begin)
+    void transfer(const choose_data_result& cdr, T* prefix_end, T* suffix_begin, T* new_suffix_begin, size_t num_constructed = 0)
     {
         buffer_guard new_buffer(*this, cdr.ptr, cdr.cap);
         range_guard prefix(*this, cdr.ptr);
         range_guard suffix(*this, new_suffix_begin);
+        suffix.end += num_constructed;
 
         for (auto p = m_begin; p != prefix_end; ++p)
         {
@@ -1015,6 +1033,20 @@ private:
         new_buffer.dismiss();
     }
 
+    // transfer the elements into a new buffer with a new one among them
+    template <typename... Args>
+    T* emplace_in(const choose_data_result& cdr, T* position, Args&&... args)
+    {
+        const auto new_position = cdr.ptr + (position - m_begin);
+
+        buffer_guard new_buffer(*this, cdr.ptr, cdr.cap);
+        atraits::construct(get_alloc(), new_position, std::forward<Args>(args)...);
+        new_buffer.dismiss(); // transfer takes care of it from here on
+
+        transfer(cdr, position, position, new_position, 1);
+        return new_position;
+    }
+
     choose_data_result choose_data(size_t desired_capacity)
     {
         choose_data_result ret = {m_begin, m_capacity};
-- 
2.43.0


From aba625b51d7f6d7b49c2f75219389788ca96cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 41/55] fix: static_vector: arguments of emplace and insert may
 be elements of the vector

---
 include/itlib/static_vector.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 013d18c..9f605c6 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -470,9 +470,7 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        hole_filler(*this, pos, 1).construct(val);
-        return pos;
+        return emplace(position, val);
     }
 
     iterator insert(const_iterator position, value_type&& val)
@@ -484,11 +482,12 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy(val); // val may be an element of this vector
         auto pos = grow_at(position, count);
         hole_filler hole(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            hole.construct(val);
+            hole.construct(copy);
         }
         return pos;
     }
@@ -519,8 +518,17 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
+        if (position == end())
+        {
+            emplace_back(std::forward<Args>(args)...);
+            return end() - 1;
+        }
+
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);
+
+        value_type val(std::forward<Args>(args)...); // the args may refer to elements of this vector
         auto pos = grow_at(position, 1);
-        hole_filler(*this, pos, 1).construct(std::forward<Args>(args)...);
+        hole_filler(*this, pos, 1).construct(std::move(val));
         return pos;
     }
 
-- 
2.43.0


From b048851a548e3eca6655113d799a17626982493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:46 +0000
Subject: [PATCH 42/55] fix: pod_vector: arguments of push_back, emplace,
 insert and resize may be elements of the vector

---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index b105467..5c67b33 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -537,15 +537,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +592,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this vector
+        return emplace_back() = copy;
     }
 
     // for compatibility
@@ -606,10 +609,11 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this vector
         bool ret = reserve(n);
         if (n > size())
         {
-            fill(m_end, n - size(), val);
+            fill(m_end, n - size(), copy);
         }
         m_end = m_begin + n;
         return ret;
-- 
2.43.0


From 7ca03b64d9f69872e7bff07ffe1675ef860f24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:15 +0000
Subject: [PATCH 43/55] fix: any: move assignment from an any which lives in
 the held value

---
 include/itlib/any.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 8c3694d..a34b2a0 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,13 +154,14 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
+        any taken(std::move(o)); // o may live in our value
         reset();
         // the block must be freed by the allocator which produced it, so take the allocator as well
         // (reconstruct since pmr-style allocators are not assignable)
         static_cast<Alloc*>(this)->~Alloc();
-        new (static_cast<Alloc*>(this)) Alloc(static_cast<const Alloc&>(o));
-        m_block = o.m_block;
-        o.m_block = nullptr;
+        new (static_cast<Alloc*>(this)) Alloc(static_cast<const Alloc&>(taken));
+        m_block = taken.m_block;
+        taken.m_block = nullptr;
         return *this;
     }
 
-- 
2.43.0


From 03e6e0b7365e99c167a76907961f8525511baf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 44/55] fix: expected::value_or: don't convert the value held
 to a common type with the default

---
 include/itlib/expected.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 149f08e..16b5703 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -271,9 +271,17 @@ public:
     T&& operator*() && { return std::move(value()); }
 
     template <typename U>
-    T value_or(U&& v) const & { return has_value() ? value() : std::forward<U>(v); }
+    T value_or(U&& v) const &
+    {
+        if (has_value()) return value();
+        return std::forward<U>(v);
+    }
     template <typename U>
-    T value_or(U&& v) && { return has_value() ? std::move(value()) : std::forward<U>(v); }
+    T value_or(U&& v) &&
+    {
+        if (has_value()) return std::move(value());
+        return std::forward<U>(v);
+    }
 
     T* operator->() { return &value(); }
     const T* operator->() const { return &value(); }
@@ -614,9 +622,17 @@ public:
     T&& operator*()&& { return std::move(value()); }
 
     template <typename U>
-    T value_or(U&& v) const& { return has_value() ? value() : std::forward<U>(v); }
+    T value_or(U&& v) const&
+    {
+        if (has_value()) return value();
+        return std::forward<U>(v);
+    }
     template <typename U>
-    T value_or(U&& v)&& { return has_value() ? std::move(value()) : std::forward<U>(v); }
+    T value_or(U&& v)&&
+    {
+        if (has_value()) return std::move(value());
+        return std::forward<U>(v);
+    }
 
     T* operator->() { return &value(); }
     const T* operator->() const { return &value(); }
-- 
2.43.0


From 9b10f461b47acbd8b5a3a65276a4bcc5ab880ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 45/55] fix: dynamic_bitset::append of a bitset to itself

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 06df357..6ae63c2 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -278,6 +278,7 @@ public:
     void append(const dynamic_bitset& other)
     {
         if (other.empty()) return;
+        if (this == &other) return append(dynamic_bitset(other)); // we can't read from a buffer which is being changed
 
         const auto pad = m_size % bits_per_word;
         if (pad == 0)
-- 
2.43.0


From 060768c44afe5ca2d7478ae4134e98a6292f8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:25 +0000
Subject: [PATCH 46/55] fix: sentry: make_sentry with an lvalue function did
 not compile before C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From 1ee8a2866e5d120aed40518a16f928cc73f4ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 47/55] fix: any, pmr_allocator: including the headers twice,
 any_cast(nullptr) did not compile

---
 include/itlib/any.hpp           | 5 ++++-
 include/itlib/pmr_allocator.hpp | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index a34b2a0..5940ac0 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,7 +50,10 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <new>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <utility>
@@ -269,7 +272,7 @@ private:
 };
 
 template <typename T>
-const T* any_cast(nullptr_t) { return nullptr; }
+const T* any_cast(std::nullptr_t) { return nullptr; }
 
 template <typename T, typename Alloc>
 const T* any_cast(const any<Alloc>* a) {
diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index cf2dd03..66d0cfe 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,6 +46,8 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <memory_resource>
 #include <cstddef>
 #include <new>
-- 
2.43.0


From 2ff528c6837eb341d14d3bd5fc8c95efe71eb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 48/55] fix: generator: iterating a finished generator resumed
 its coroutine

---
 include/itlib/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 9aaf462..f87cb5f 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -217,7 +217,7 @@ public:
     };
 
     pseudo_iterator begin() {
-        safe_resume(m_handle);
+        if (!done()) safe_resume(m_handle); // a finished coroutine can't be resumed
         return pseudo_iterator{m_handle};
     }
 
-- 
2.43.0


From 8ade0b3bf691a25bd478b8cb1c16e66c8c51bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:46 +0000
Subject: [PATCH 49/55] fix: mem_ostreambuf: a copied or moved buffer wrote
 into the container of its source

---
 include/itlib/mem_streambuf.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index d91267f..2e1ba22 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,7 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
 
 namespace itlib
 {
@@ -114,6 +115,23 @@ public:
         cap_resize_by(reserve);
     }
 
+    // the put pointers must point into our own container, and not in that of the source
+    mem_ostreambuf(const mem_ostreambuf& other) : super(other), m_data(other.m_data)
+    {
+        set_poff(other.poff());
+    }
+
+    mem_ostreambuf(mem_ostreambuf&& other) : mem_ostreambuf(other, other.poff()) {}
+
+    mem_ostreambuf& operator=(mem_ostreambuf other)
+    {
+        const auto off = other.poff();
+        m_data = std::move(other.m_data);
+        super::operator=(other);
+        set_poff(off);
+        return *this;
+    }
+
     // put offset
     size_t poff() const
     {
@@ -191,6 +209,18 @@ private:
 
 private:
 
+    // move
+    mem_ostreambuf(mem_ostreambuf& other, size_t off) : super(other), m_data(std::move(other.m_data))
+    {
+        set_poff(off);
+        other.clear();
+    }
+
+    void set_poff(size_t off)
+    {
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
+    }
+
     void cap_resize_by(size_t by)
     {
         auto off = poff();
-- 
2.43.0


From 23c5e53f7ce0ccffef165033cd41d2ada35b5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:17 +0000
Subject: [PATCH 50/55] fix: ufunction: a null function pointer or an empty
 wrapper of another signature made a non-empty ufunction

---
 include/itlib/ufunction.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/itlib/ufunction.hpp b/include/itlib/ufunction.hpp
index 8bfac98..7305b41 100644
--- a/include/itlib/ufunction.hpp
+++ b/include/itlib/ufunction.hpp
@@ -89,12 +89,16 @@ public:
     ufunction& operator=(ufunction&&) noexcept = default;
 
     template <typename FO>
-    ufunction(FO f) noexcept : function(copy_wrapper<FO>{std::move(f)}) {}
+    ufunction(FO f) noexcept
+    {
+        if (!is_null(f)) function::operator=(copy_wrapper<FO>{std::move(f)});
+    }
 
     template <typename FO>
     ufunction& operator=(FO f) noexcept
     {
-        function::operator=(copy_wrapper<FO>{std::move(f)});
+        if (is_null(f)) function::operator=(nullptr);
+        else function::operator=(copy_wrapper<FO>{std::move(f)});
         return *this;
     }
 
@@ -110,6 +114,16 @@ public:
     using function::operator bool;
     using function::operator();
 private:
+    // null pointers to functions and empty wrappers (of other signatures) make an empty ufunction
+    template <typename FO>
+    static bool is_null(const FO&) noexcept { return false; }
+    template <typename FP>
+    static bool is_null(FP* fptr) noexcept { return !fptr; }
+    template <typename F2>
+    static bool is_null(const std::function<F2>& f) noexcept { return !f; }
+    template <typename F2>
+    static bool is_null(const ufunction<F2>& f) noexcept { return !f; }
+
     template <typename FO>
     struct copy_wrapper
     {
-- 
2.43.0


From 728886ae6cf0959abe391306e0874c696aae0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:14 +0000
Subject: [PATCH 51/55] fix: dynamic_bitset moved onto itself lost its size but
 kept its words

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 6ae63c2..f5e100c 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -171,6 +171,7 @@ public:
     }
     dynamic_bitset& operator=(dynamic_bitset&& x) noexcept
     {
+        if (this == &x) return *this; // prevent self usurp
         m_buf = std::move(x.m_buf);
         m_size = x.m_size;
         x.m_size = 0;
-- 
2.43.0


From fde56351b01adaa5b7a32815e35427f377929c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:51 +0000
Subject: [PATCH 52/55] fix: any: copying from an any with another allocator
 did not compile

---
 include/itlib/any.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 5940ac0..805d9cc 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -145,6 +145,10 @@ struct is_any<any<Alloc>> : public std::true_type {};
 template <typename Alloc = anyimpl::default_allocator>
 class any : private /*EBO*/ Alloc {
     anyimpl::obj_block* m_block = nullptr;
+
+    // copies from an any with another allocator need its block
+    template <typename OAlloc>
+    friend class any;
 public:
     using allocator_type = Alloc;
 
-- 
2.43.0


From 8e582a05932fd0625494c887afaf43cb00b7621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:51 +0000
Subject: [PATCH 53/55] fix: poly_span, stride_span: the difference of
 iterators was wrong when negative

---
 include/itlib/poly_span.hpp   | 2 +-
 include/itlib/stride_span.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..d712c5f 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..69ecfb4 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 072766cc3f247613bf6a6f5b0033e90b0386f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:20 +0000
Subject: [PATCH 54/55] fix: pod_vector: recast_take_from took buffers which
 are not aligned for its elements

---
 include/itlib/pod_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 5c67b33..8a14a04 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -268,6 +268,14 @@ public:
     {
         static_assert(allocator_aligned() == pod_vector<U, UAlloc>::allocator_aligned(), "taking buffers can only happen with the same relative allocation alignment");
 
+        if (!allocator_aligned() && reinterpret_cast<uintptr_t>(other.data()) % alignof(T) != 0)
+        {
+            // the buffer is not aligned for us, so we can't take it
+            recast_copy_from(other);
+            other.clear();
+            return;
+        }
+
         a_free_begin();
 
         auto new_size = other.byte_size() / sizeof(T);
-- 
2.43.0


From 5c518a944cc0f43253350f3ece75a210af8034be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:20 +0000
Subject: [PATCH 55/55] fix: pod_vector: expanding a buffer taken from a vector
 of more aligned elements overran it

---
 include/itlib/pod_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 8a14a04..16a5480 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -911,7 +911,10 @@ private:
         else
         {
             auto ptr = real_addr(m_begin);
-            if (!Alloc::expand(ptr, e2b(num_elements) + alignof(value_type))) return false;
+            // the shift exceeds our alignment if the buffer was taken from a vector of more aligned elements
+            const size_t shift = size_t(reinterpret_cast<uint8_t*>(m_begin) - static_cast<uint8_t*>(ptr));
+            if (shift > Alloc::max_size() - e2b(num_elements)) return false;
+            if (!Alloc::expand(ptr, e2b(num_elements) + shift)) return false;
         }
 
         m_capacity = num_elements;
-- 
2.43.0

