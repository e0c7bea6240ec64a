From 9aad2388267616421fe984761fabeda79abaab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:20 +0000
Subject: [PATCH 01/35] fix: Array move assignment releases the elements and
 storage it replaces

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..f45a7fe 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { Array<T> r(std::move(a)); this->swap(r); } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 5682895e2498b13c6218bbd493e13bf92a158317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:20 +0000
Subject: [PATCH 02/35] fix: Array refuses a size whose byte count overflows

---
 include/array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index f45a7fe..a11293c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -37,6 +37,7 @@
 
 #include <initializer_list>
 #include <iterator>
+#include <new>
 #include <stdexcept>
 #include <cassert>
 #include "metaprogramming.hpp"
@@ -52,7 +53,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 2155bbbd9abeb80eca5e5445cb6f6dfa1b305786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:20 +0000
Subject: [PATCH 03/35] fix: Array neither leaks nor is left half-built when an
 allocation or element operation throws

---
 include/array.hpp | 73 +++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index a11293c..5b6ca5c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -81,57 +81,56 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : Array() { _ptr=uninitialized_new(n); for(; _size!=n; ++_size) { new (_ptr+_size) T(); } }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
-    Array(const size_t n, const ValueType& x) : _size(n), _ptr(uninitialized_new(n)) { this->_uninitialized_fill(x); }
+    Array(const size_t n, const ValueType& x) : Array() { this->_uninitialized_fill(n,x); }
 
     //! \brief Converts an initializer list to an Array.
-    Array(InitializerList<T> lst) : _size(lst.size()), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_fill(lst.begin()); }
+    Array(InitializerList<T> lst) : Array() {
+        this->_uninitialized_fill(lst.size(),lst.begin()); }
     //! \brief Constructs an Array from an initializer list of doubles and a precision parameter.
     template<class PR> requires Constructible<T,double,PR>
-    Array(InitializerList<double> lst, PR pr) : _size(lst.size()), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_fill(lst.begin(),pr); }
+    Array(InitializerList<double> lst, PR pr) : Array() {
+        this->_uninitialized_fill(lst.size(),lst.begin(),pr); }
     //! \brief Generate from a function (object) \a g of type \a G mapping an index to a value.
     template<class G> requires InvocableReturning<ValueType,G,size_t>
-    Array(size_t n, G const& g) : _size(n), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_generate(g); }
+    Array(size_t n, G const& g) : Array() {
+        this->_uninitialized_generate(n,g); }
 
     //! \brief Constructs an Array from the range \a first to \a last.
     template<class ForwardIterator>
-    Array(ForwardIterator first, ForwardIterator last)
-            : _size(static_cast<size_t>(std::distance(first,last))), _ptr(uninitialized_new(_size)) {
+    Array(ForwardIterator first, ForwardIterator last) : Array() {
         assert(std::distance(first,last) >= 0);
-        this->_uninitialized_fill(first); }
+        this->_uninitialized_fill(static_cast<size_t>(std::distance(first,last)),first); }
 
     //! \brief Conversion constructor.
     template<class TT> requires Convertible<TT,T>
-    Array(const Array<TT>& a) : _size(a.size()), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_fill(a.begin()); }
+    Array(const Array<TT>& a) : Array() {
+        this->_uninitialized_fill(a.size(),a.begin()); }
 
     //! \brief Explicit conversion constructor.
     //! \details Requirement ExplicitlyConvertible<TT,T> as a static_assert to avoid definition of \c TT being required.
     template<class TT>
-    explicit Array(const Array<TT>& a) : _size(a.size()), _ptr(uninitialized_new(_size)) {
-        static_assert(ExplicitlyConvertible<TT,T>); this->_uninitialized_fill(a.begin()); }
+    explicit Array(const Array<TT>& a) : Array() {
+        static_assert(ExplicitlyConvertible<TT,T>); this->_uninitialized_fill(a.size(),a.begin()); }
 
     //! \brief Explicit construction with properties parameter.
     template<class TT, class PR> requires Constructible<T,TT,PR>
-    Array(const Array<TT>& a, PR pr) : _size(a.size()), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_fill(a.begin(),pr); }
+    Array(const Array<TT>& a, PR pr) : Array() {
+        this->_uninitialized_fill(a.size(),a.begin(),pr); }
 
     //! \brief Copy constructor.
-    Array(const Array<T>& a) : _size(a.size()), _ptr(uninitialized_new(_size)) {
-        this->_uninitialized_fill(a.begin()); }
+    Array(const Array<T>& a) : Array() {
+        this->_uninitialized_fill(a.size(),a.begin()); }
     //! \brief Move constructor.
     Array(Array<T>&& a) : _size(a._size), _ptr(a._ptr) {
         a._size=0u; a._ptr=nullptr; }
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> r(a); this->swap(r); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -147,18 +146,17 @@ public:
     void resize(size_t n) {
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> r; r._ptr=uninitialized_new(n);
+            for(size_t& i=r._size; i!=n; ++i) { if(i<_size) { new (r._ptr+i) T(_ptr[i]); } else { new (r._ptr+i) T(); } }
+            this->swap(r); } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> r; r._ptr=uninitialized_new(n);
+            for(size_t& i=r._size; i!=n; ++i) { if(i<_size) { new (r._ptr+i) T(_ptr[i]); } else { new (r._ptr+i) T(t); } }
+            this->swap(r); } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> r(n); this->swap(r); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
@@ -208,16 +206,15 @@ public:
         resize(std::distance(first,last)); fill(first); }
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
-    void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
-    template<class InputIterator> void _uninitialized_fill(InputIterator first) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
-    template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
-    template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+    // The size always counts the elements constructed so far, so that the destructor releases a partly constructed array.
+    void _uninitialized_fill(size_t n, const ValueType& x) {
+        _ptr=uninitialized_new(n); for(; _size!=n; ++_size) { new (_ptr+_size) T(x); } }
+    template<class InputIterator> void _uninitialized_fill(size_t n, InputIterator first) {
+        _ptr=uninitialized_new(n); for(; _size!=n; ++_size) { new (_ptr+_size) T(*first); ++first; } }
+    template<class InputIterator, class Parameters> void _uninitialized_fill(size_t n, InputIterator first, Parameters parameters) {
+        _ptr=uninitialized_new(n); for(; _size!=n; ++_size) { new (_ptr+_size) T(*first,parameters); ++first; } }
+    template<class G> void _uninitialized_generate(size_t n, G g) {
+        _ptr=uninitialized_new(n); for(; _size!=n; ++_size) { new (_ptr+_size) T(g(_size)); } }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From adbf92b20d7bd9737a3ed7859d798c2a3f92d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 04/35] fix: SharedArray destructor decrements and releases the
 shared count

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 5b6ca5c..f8823dc 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From cbef94a871ded12327d2b53827e72e587a4ee0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 05/35] fix: SharedArray constructor releases the count if
 creating the elements throws

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index f8823dc..3502dcb 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -229,7 +229,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(nullptr) {
+        try { _ptr=new T[n]; } catch(...) { delete _count; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From 1670da221be35d4207ce2856e1a5ccfe06301536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:41 +0000
Subject: [PATCH 06/35] fix: LRUCache::put inserts before ageing and evicting,
 so that a failing put changes nothing

---
 include/lru_cache.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..1176feb 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,17 +79,15 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
-        if (_elements.size() < _maximum_size) {
-            for (auto& other : _elements) other.second.age++;
-        } else {
-            auto to_remove = _elements.end();
-            for (auto it = _elements.begin(); it != _elements.end(); ++it) {
-                if (it->second.age == _maximum_size-1) to_remove = it;
-                it->second.age++;
-            }
-            _elements.erase(to_remove);
+        // Insert first, so that a failure changes nothing and val may refer to the element to be removed
+        auto added = _elements.insert({label,AgeValuePair(0,val)}).first;
+        auto to_remove = _elements.end();
+        for (auto it = _elements.begin(); it != _elements.end(); ++it) {
+            if (it == added) continue;
+            if (it->second.age == _maximum_size-1) to_remove = it;
+            it->second.age++;
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        if (to_remove != _elements.end()) _elements.erase(to_remove);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From 9909c39f86c2f087cb2ab0d194c16f94d76d5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 07/35] fix: a mutable dynamic_handle_extract copies a shared
 object before giving access to it

---
 include/handle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..dc58efe 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -158,6 +158,7 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
 }
 
 template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
+    h.make_unique();
     const I* i=h.raw_const_pointer();
     const T* p=dynamic_cast<const T*>(i);
     if(p) { return const_cast<T&>(*p); }
-- 
2.43.0


From 5f126be6e623a094776236b5a871dc747cfbef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 08/35] fix: dynamic_handle_extract gives no mutable access to
 the object of a handle to a constant interface

---
 include/handle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index dc58efe..8041a7a 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -110,7 +110,7 @@ template<class I> class Handle {
     template<class II> static void _make_unique(shared_ptr<const II>&) { }
     void make_unique() { _make_unique(_ptr); }
   private:
-    template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
+    template<class T, class II> requires (not std::is_const_v<II>) friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
     template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
     template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
@@ -157,7 +157,7 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
     return dynamic_handle_extract<T>(Handle<const I>(h));
 }
 
-template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
+template<class T, class I> requires (not std::is_const_v<I>) T& dynamic_handle_extract(Handle<I>& h) {
     h.make_unique();
     const I* i=h.raw_const_pointer();
     const T* p=dynamic_cast<const T*>(i);
-- 
2.43.0


From 6c418971e9fba0ad01b0e79427a4e90389348cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 09/35] fix: Handle clones its object on mutable access only if
 it is shared, so that references stay valid

---
 include/handle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index 8041a7a..54b8cea 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -33,6 +33,7 @@
 #ifndef HELPER_HANDLE_HPP
 #define HELPER_HANDLE_HPP
 
+#include <atomic>
 #include <memory>
 
 #include "stdlib.hpp"
@@ -106,7 +107,8 @@ template<class I> class Handle {
     shared_ptr<I> managed_pointer() { make_unique(); return _ptr; }
   protected:
     template<class II> static void _make_unique(shared_ptr<II>& ptr) {
-        ptr=shared_ptr<I>(ptr->clone()); }
+        if(ptr.use_count()>1) { ptr=shared_ptr<I>(ptr->clone()); }
+        else { std::atomic_thread_fence(std::memory_order_acquire); } }
     template<class II> static void _make_unique(shared_ptr<const II>&) { }
     void make_unique() { _make_unique(_ptr); }
   private:
-- 
2.43.0


From f9b3eddb0fb4b5d25bb9fbbc0bdb74e0527a12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:01 +0000
Subject: [PATCH 10/35] fix: Stopwatch uses the steady clock, so that setting
 the system time does not change a measure

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 3686c76..70932d7 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -43,7 +43,7 @@ using Microseconds = std::chrono::microseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
 
     Stopwatch() { restart(); }
-- 
2.43.0


From f4d9d976a95976dcbc7bb596a91233196162c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:09 +0000
Subject: [PATCH 11/35] fix: the random generator shared by all randomisers is
 locked while a value is drawn

---
 include/randomiser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/randomiser.hpp b/include/randomiser.hpp
index 97f230b..6df5742 100644
--- a/include/randomiser.hpp
+++ b/include/randomiser.hpp
@@ -36,6 +36,7 @@
 
 #include <random>
 #include <chrono>
+#include <mutex>
 
 namespace Helper {
 
@@ -58,6 +59,9 @@ class RandomGenerator {
 
 static RandomGenerator RANDOM_GENERATOR;
 
+//! \brief Guards the random generator, which all randomisers of all threads draw from
+inline std::mutex& random_generator_mutex() { static std::mutex mtx; return mtx; }
+
 template<class T> class RandomiserInterface {
   public:
     virtual T get() = 0;
@@ -68,7 +72,10 @@ template<class T,class D> class RandomiserBase : public RandomiserInterface<T> {
     RandomiserBase(T min, T max) : _distribution(D(min,max)) { }
     D _distribution;
   public:
-    T get() override { return this->_distribution(RANDOM_GENERATOR.engine()); }
+    T get() override {
+        std::lock_guard<std::mutex> lock(random_generator_mutex());
+        return this->_distribution(RANDOM_GENERATOR.engine());
+    }
 };
 
 template<class T> struct UniformRealRandomiser : public RandomiserBase<T,std::uniform_real_distribution<T>> {
-- 
2.43.0


From bd9c0e4fa36ba6cdfe01858d08fd3ad9c2184238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:53 +0000
Subject: [PATCH 12/35] fix: read_sequence fails on a stream that ends right
 after, or before, the opening delimiter

---
 include/stlio.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..1a0e22e 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -155,12 +155,15 @@ read_sequence(istream& is, Container& v,
 
     try {
         is >> c;
-        if(c != opening) {
+        if(is.fail() || c != opening) {
             throw std::ios_base::failure(std::string("Helper::Base::read_vector: Input must begin with ")+opening);
         }
 
         /* Handle case of empty list */
         is >> c;
+        if(is.fail()) {
+            throw std::ios_base::failure("Helper::Base::read_vector: End-of-file reached");
+        }
         if(c != closing) {
             is.putback(c);
             c=separator;
-- 
2.43.0


From 3256c686c85e1e79af2ec1083df052a23002cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:25 +0000
Subject: [PATCH 13/35] fix: printing a tuple compiles for elements of any type

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 1a0e22e..b6ebb9b 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -222,7 +222,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From ab4819bedc90b2e71a48a5ab01eeb119ec0761f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:13 +0000
Subject: [PATCH 14/35] fix: binary_word.hpp and HELPER_NOT_IMPLEMENTED
 compile, using std::string

---
 include/binary_word.hpp | 11 ++++++-----
 include/macros.hpp      |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..47261c2 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -76,7 +76,8 @@
 
 #include <limits>
 #include <vector>
-#include <iosfwd>
+#include <string>
+#include <sstream>
 #include <stdexcept>
 
 #include "macros.hpp"
@@ -101,7 +102,7 @@ class BinaryWord : public std::vector<bool> {
     BinaryWord() : std::vector<bool>() { }
 
     //! \brief Construct from a string literal consisting of zeros and ones.
-    explicit BinaryWord(const StringType& str);
+    explicit BinaryWord(const std::string& str);
 
     //! Comparison operator.
     bool operator<(const BinaryWord& w) const;
@@ -212,14 +213,14 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
 /*! \brief allocates a new binary word created from a string.
  *  The data format is either "[0,1,0,1,1]" or equivalently "01011".
  */
-inline BinaryWord make_binary_word(const StringType& string_data) {
+inline BinaryWord make_binary_word(const std::string& string_data) {
     BinaryWord binary_word;
-    StringStream string_input_stream( string_data );
+    std::stringstream string_input_stream( string_data );
     string_input_stream >> binary_word;
     return binary_word;
 }
 
-inline BinaryWord::BinaryWord(const StringType& str) {
+inline BinaryWord::BinaryWord(const std::string& str) {
     *this=make_binary_word(str); }
 
 /*! \brief Serializes data into a stream.
diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..dff4445 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -144,7 +144,7 @@
     } \
 
 #define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
     static bool first_time=true; \
-- 
2.43.0


From 7daf573e57a702f14c0f0e6f346c8230b7767e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:45 +0000
Subject: [PATCH 15/35] fix: appending a BinaryWord to itself terminates

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 47261c2..27b11b7 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -178,7 +178,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t binaryWord_size = binaryWord.size(); // binaryWord may be this word
+    for( size_t i = 0; i < binaryWord_size ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 5bf0945d2511c98f2a54032579cc50416e3d6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:45 +0000
Subject: [PATCH 16/35] fix: reading a BinaryWord consumes exactly the word,
 and may be ended by the end of the input

---
 include/binary_word.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 27b11b7..3bbf0d7 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -191,22 +191,26 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     //Clear the binary word, as we assume that we input
     //new data and the old one is not needed.
     binary_word.clear();
-    //Read the first stream symbol to check the input format
-    char symbol;
-    input_stream >> symbol;
+    //Look at the first stream symbol to check the input format
+    input_stream >> std::ws;
+    auto symbol = input_stream.peek();
     if( symbol == '[' ) {
-        //If it is a standard std:vector input then put
-        //the symbol back and use it's input operator
+        //If it is a standard std:vector input then use it's input operator
         std::vector<bool> & bool_vector = binary_word;
-        input_stream.putback( symbol );
         input_stream >> bool_vector;
+    } else if( symbol == 'e' ) {
+        //The empty word
+        input_stream.get();
+    } else if( not input_stream.good() ) {
+        //There is no word to read
+        input_stream.setstate( std::ios_base::failbit );
     } else {
-        //Otherwise read a sequence of 0 and 1.
-        while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
-            binary_word.push_back( symbol == '0' ? 0 : 1);
-            input_stream.get( symbol );
+        //Otherwise read a sequence of 0 and 1, which may be ended by the end of the input.
+        while( symbol == '0' || symbol == '1' ) {
+            binary_word.push_back( symbol == '1' );
+            input_stream.get();
+            symbol = input_stream.peek();
         }
-        input_stream.putback( symbol );
     }
     return input_stream;
 }
-- 
2.43.0


From 6a1f57cbb34d80ebfabe4a01c3c72fa972f6896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:45 +0000
Subject: [PATCH 17/35] fix: printing a BinaryWord ignores the format settings
 of the stream and leaves them unchanged

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 3bbf0d7..0c02866 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -235,11 +235,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From 2cda526735495100e19da802f8a78c9567cd0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 18/35] fix: appending a List to itself terminates

---
 include/container.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..e67a0ba 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,8 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } } // t may be this list
+    void concatenate(const std::vector<T>& t) { this->append(t); }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From bef8cce60d44fec62d58c0ed21b4dd886d9a4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 19/35] fix: constructing a LinkedList of n equal items
 compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index e67a0ba..aebb238 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -141,7 +141,7 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
-- 
2.43.0


From 6014145a1e5c558d1db2c8273e5bbba69664d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 20/35] fix: appending a LinkedList to a LinkedList compiles

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index aebb238..2832c39 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -148,8 +148,8 @@ template<class T> class LinkedList
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { LinkedList<T> items(t); this->splice(this->end(),items); }
+    void concatenate(const LinkedList<T>& t) { this->append(t); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From b9f191f0f8d810bd891e348a0eec110482d833fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 21/35] fix: applying a function to a Set compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 2832c39..5ae3c68 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -204,7 +204,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From ba22a672a073fcdf40290b67e3fd6c67c7830bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 22/35] fix: making a List of an Array compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 5ae3c68..3e365bc 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -320,7 +320,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 864861d048ec7d34398f5b3a41f8cb44aa78b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:14 +0000
Subject: [PATCH 23/35] fix: Set::restrict keeps the elements of the other set

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 3e365bc..5044fc7 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -195,7 +195,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From dc9d935d92db794715312025b2b0999b38b7dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:56 +0000
Subject: [PATCH 24/35] fix: the checking macros work on arguments that name a
 variable result, assertion_result or ss

---
 include/macros.hpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index dff4445..c7226d3 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,15 +48,15 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream helper_message_stream; \
+        helper_message_stream << #except " in " << func << ": " << msg;    \
+        throw except(helper_message_stream.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -65,8 +65,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT_MSG(expression,error) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
@@ -80,8 +80,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -94,16 +94,16 @@
 
 #define HELPER_PRECONDITION_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_PRECONDITION(expression)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -129,16 +129,16 @@
 
 #define HELPER_ASSERT_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>(expression); \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_ASSERT_EQUAL(expression1,expression2)    \
     { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
+        bool helper_check_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!helper_check_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
         } \
     } \
-- 
2.43.0


From 15bea92297e655c0c9deef8fb937e65a9992c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:10 +0000
Subject: [PATCH 25/35] fix: two once-only warnings in one scope compile, and
 their flag cannot capture a name in the message

---
 include/macros.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index c7226d3..11500a5 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -147,11 +147,13 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
+    { \
+    static bool helper_first_time=true; \
+    if(helper_first_time) { \
+        helper_first_time=false; \
         std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
     } \
+    } \
 
 #define HELPER_NOTIFY(msg)          \
     {                                                                \
@@ -164,11 +166,13 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
+    { \
+    static bool helper_first_time=true; \
+    if(helper_first_time) { \
+        helper_first_time=false; \
         std::cerr << "WARNING: " << msg << "" << std::endl; \
     } \
+    } \
 
 #define HELPER_ERROR(msg)          \
     {                                                                \
-- 
2.43.0


From 886d80250bfdfa0d1723b0f12894e3abaf626491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:41 +0000
Subject: [PATCH 26/35] fix: an exception of any type out of a called test case
 or a throwing test is counted as a failure

---
 include/test.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..7383ebc 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -126,6 +126,12 @@ int test_case_counter = 0;
                       << #function << ": " << except.what() << std::endl; \
             std::cout << std::endl;                                     \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                     \
+            std::cout << "ERROR: unknown exception in " << #function << ": \n" << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": calling " \
+                      << #function << ": unknown exception" << std::endl; \
+        }                                                               \
     }                                                                   \
 
 
@@ -491,6 +497,11 @@ int test_case_counter = 0;
             std::cout << "\nERROR: caught exception " << except.what() << "; expected " << #error << "\n"; \
             std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught exception " << except.what() << "; expected " << #error << std::endl; \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                     \
+            std::cout << "\nERROR: caught unknown exception; expected " << #error << "\n"; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught unknown exception; expected " << #error << std::endl; \
+        }                                                               \
     }                                                                   \
 
 
-- 
2.43.0


From 68a5f00d697860ec83ce233b87e7cdc0008cba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:41 +0000
Subject: [PATCH 27/35] fix: HELPER_TEST_WITHIN computes the error for
 arguments that are not primary expressions

---
 include/test.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 7383ebc..a12f8a4 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -312,8 +312,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        auto error=abs((expression)-(expected)); \
+        bool ok = (error <= (tolerance));                       \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From b9c70e7b539364d358c9c30de753f8f1d255a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:22 +0000
Subject: [PATCH 28/35] fix: the checks of the test framework work on
 expressions that name a variable ok, result or error

---
 include/test.hpp | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index a12f8a4..2fe138c 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -190,8 +190,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        auto helper_test_result = (expression);                                     \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -205,8 +205,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -219,8 +219,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -234,8 +234,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -249,8 +249,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -266,8 +266,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -281,8 +281,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);               \
+        if(helper_test_ok) {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -296,8 +296,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -312,17 +312,17 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs((expression)-(expected)); \
-        bool ok = (error <= (tolerance));                       \
-        if(ok) {                                                        \
+        auto helper_test_error=abs((expression)-(expected)); \
+        bool helper_test_ok = (helper_test_error <= (tolerance));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -332,8 +332,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -347,8 +347,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -362,8 +362,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -377,8 +377,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -391,15 +391,15 @@ int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                                       \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected);               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
@@ -526,8 +526,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_STATIC_ASSERT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -542,8 +542,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CONCEPT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -560,8 +560,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_TYPE(...)                          \
     {                                                                   \
         std::cout << "Same<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((Same<__VA_ARGS__>));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((Same<__VA_ARGS__>));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -577,8 +577,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUIVALENT_TYPE(...)                          \
     {                                                                   \
         std::cout << "IsEquivalent<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
-- 
2.43.0


From 0ff2bbf906444d4a52843f5c3cafd90f08e2c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:10 +0000
Subject: [PATCH 29/35] fix: a frame without a symbol name is printed by its
 address and leaves standard error usable

---
 src/stack_trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..ba3d877 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -49,7 +49,7 @@ void stack_trace() {
     assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
-        if (dladdr(callstack[i], &info)) {
+        if (dladdr(callstack[i], &info) && info.dli_sname != nullptr) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-- 
2.43.0


From 0d87fcad9a53cdbffcc399aae6a3ae081f9e9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:10 +0000
Subject: [PATCH 30/35] fix: stack_trace demangles the name of the function,
 and does not abort if memory runs out

---
 src/stack_trace.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index ba3d877..30b8548 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -30,7 +30,7 @@
 
 #ifdef ENABLE_STACK_TRACE
 
-#include <cassert>
+#include <cstdlib>
 #include <iostream>
 
 #include <execinfo.h>
@@ -45,22 +45,19 @@ void stack_trace() {
     void *callstack[CALLSTACK_SIZE];
     const int nMaxFrames = sizeof(callstack) / sizeof(callstack[0]);
     int nFrames = backtrace(callstack, nMaxFrames);
-    char **symbols = backtrace_symbols(callstack, nFrames);
-    assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
         if (dladdr(callstack[i], &info) && info.dli_sname != nullptr) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
+            char* demangled = abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status);
             std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
         }
     }
-    free(symbols);
 }
 
 } // namespace Helper
-- 
2.43.0


From b91b2aca1d7d2d4f89d47d6c22ba0348648f5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:30 +0000
Subject: [PATCH 31/35] fix: Array aligns the storage of over-aligned elements

---
 include/array.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 3502dcb..09d6ff6 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -55,8 +55,11 @@ class Array {
 private:
     static T* uninitialized_new(size_t n) {
         if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
-        return static_cast<T*>(::operator new(n*sizeof(T))); }
-    static void uninitialized_delete(T* p) { ::operator delete(p); }
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { return static_cast<T*>(::operator new(n*sizeof(T),std::align_val_t(alignof(T)))); }
+        else { return static_cast<T*>(::operator new(n*sizeof(T))); } }
+    static void uninitialized_delete(T* p) {
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { ::operator delete(p,std::align_val_t(alignof(T))); }
+        else { ::operator delete(p); } }
 public:
     typedef T ValueType;
     typedef size_t IndexType;
-- 
2.43.0


From c26819bed0915177ba800aa6cb200094bd90ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:28:33 +0000
Subject: [PATCH 32/35] fix: printing an empty tuple compiles

---
 include/stlio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index b6ebb9b..1065587 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -194,11 +194,11 @@ read_sequence(istream& is, Container& v,
 
 
 template<class TUP, std::size_t N> void write_tuple(std::ostream& os, TUP const& tup, std::integral_constant<std::size_t,N>) {
-    if constexpr (N!=1) {
+    if constexpr (N>1) {
         write_tuple(os,tup,std::integral_constant<std::size_t,N-1>());
         os << ',';
     }
-    os << std::get<N-1>(tup);
+    if constexpr (N>0) { os << std::get<N-1>(tup); }
 }
 
 } // namespace Helper
-- 
2.43.0


From 51a06c0ed6e81735ae73c62ac363854758b37fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:28:14 +0000
Subject: [PATCH 33/35] fix: HELPER_TEST_WITHIN judges fractions and large
 differences

---
 include/test.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/test.hpp b/include/test.hpp
index 2fe138c..eec9056 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -32,10 +32,12 @@
 #ifndef HELPER_TEST_HPP
 #define HELPER_TEST_HPP
 
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <exception>
+#include <type_traits>
 #include "macros.hpp"
 
 int HELPER_TEST_FAILURES = 0;
@@ -50,6 +52,13 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
     os << r << std::flush; return (r==er);
 }
 
+// The absolute value of an error. Plain abs may be that of int, which drops fractions and high bits.
+template<class E> auto testing_abs(const E& e) {
+    using std::abs;
+    if constexpr (std::is_unsigned<E>::value) { return abs(static_cast<typename std::make_signed<E>::type>(e)); }
+    else { return abs(e); }
+}
+
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
@@ -312,7 +321,7 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto helper_test_error=abs((expression)-(expected)); \
+        auto helper_test_error=testing_abs((expression)-(expected)); \
         bool helper_test_ok = (helper_test_error <= (tolerance));                       \
         if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
-- 
2.43.0


From cb3f992a3fc880a39704bb99dc42be08da90b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:13:56 +0000
Subject: [PATCH 34/35] fix: SharedArray assignment releases the old store
 after taking over the new one

The source may be held by an element of the old store, which was released
before the source was read.
---
 include/array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 09d6ff6..56b7feb 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -39,6 +39,7 @@
 #include <iterator>
 #include <new>
 #include <stdexcept>
+#include <utility>
 #include <cassert>
 #include "metaprogramming.hpp"
 
@@ -240,7 +241,8 @@ public:
         auto from=lst.begin(); auto end=lst.end(); auto to=_ptr; while(from!=end) { *to = *from; ++from; ++to; } }
     SharedArray(const SharedArray<T>& ary) : _count(ary._count), _size(ary._size), _ptr(ary._ptr) { ++ *_count; }
     SharedArray<T>& operator=(const SharedArray<T>& ary) {
-        if(this->_ptr!=ary._ptr) { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count; _size=ary._size; _ptr=ary._ptr; } ++ *_count; } return *this; }
+        // The old store is released last, since ary may be held by one of its elements.
+        SharedArray<T> old(ary); std::swap(_count,old._count); std::swap(_size,old._size); std::swap(_ptr,old._ptr); return *this; }
     size_t size() const { return _size; }
     T& operator[](size_t i) { return _ptr[i]; }
     const T& operator[](size_t i) const { return _ptr[i]; }
-- 
2.43.0


From 18ae460f29d9aee20695c3e8a4474e6126a91c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:54:04 +0000
Subject: [PATCH 35/35] fix: once-only warnings and deprecation notices appear
 once, also when several threads reach them at the same time

---
 include/macros.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 11500a5..fdbe070 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -36,6 +36,7 @@
 #ifndef HELPER_MACROS_HPP
 #define HELPER_MACROS_HPP
 
+#include <atomic>
 #include <sstream>
 #include <stdexcept>
 
@@ -148,9 +149,8 @@
 
 #define HELPER_DEPRECATED(fn,msg)          \
     { \
-    static bool helper_first_time=true; \
-    if(helper_first_time) { \
-        helper_first_time=false; \
+    static std::atomic<bool> helper_first_time(true); \
+    if(helper_first_time.exchange(false)) { \
         std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
     } \
     } \
@@ -167,9 +167,8 @@
 
 #define HELPER_WARN_ONCE(msg)          \
     { \
-    static bool helper_first_time=true; \
-    if(helper_first_time) { \
-        helper_first_time=false; \
+    static std::atomic<bool> helper_first_time(true); \
+    if(helper_first_time.exchange(false)) { \
         std::cerr << "WARNING: " << msg << "" << std::endl; \
     } \
     } \
-- 
2.43.0

