From 83c03c69f872c6b8f5b754ded98b88599e0a47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 01/59] fix: report failed allocations of Array and keep its
 state consistent

A failed allocation was only noticed in debug mode: the array silently became
empty (or kept its size with a null buffer) and callers wrote through it.
Assignments between arrays that wrap the same memory kept the old size, and
copying a moved-from array dereferenced a null counter.
---
 src/hif/ds/Array.hpp       | 126 +++++++++++++------------------------
 src/hif/ds/DenseMatrix.hpp |   2 +-
 2 files changed, 44 insertions(+), 84 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..6256f1c 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -124,18 +124,11 @@ class Array {
   /// \brief constructor with owned data
   /// \param[in] n length of the array
   /// \sa DATA_OWN
-  explicit Array(const size_type n)
-      : _data(new (std::nothrow) value_type[n]),
-        _size(n),
-        _cap(n),
-        _status(DATA_OWN),
-        _counts(new _RefCount()) {
-    // handle overflow
-    hif_assert(_data, "memory allocation failed");
-    if (!_data) {
-      _size = _cap = 0u;
-      _status      = DATA_UNDEF;
-    }
+  explicit Array(const size_type n) : Array() {
+    _data   = _allocate(n);
+    _size   = n;
+    _cap    = n;
+    _status = DATA_OWN;
   }
 
   /// \brief similary to Array(n) but with uniform value initialization
@@ -152,18 +145,11 @@ class Array {
   ///
   /// If \a wrap is \a true, then a wrapper Array will be constructed, as a
   /// result, you cannot \ref resize and \ref reserve data.
-  Array(const size_type n, pointer data, bool wrap = false) {
-    _counts = new _RefCount();
+  Array(const size_type n, pointer data, bool wrap = false) : Array() {
     if (!wrap) {
-      _data = new (std::nothrow) value_type[n];
-      // handle overflow
-      if (!_data) {
-        _size = _cap = 0u;
-        _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
-      }
+      _data = _allocate(n);
+      std::copy_n(data, n, _data);
+      _status = DATA_OWN;
     } else {
       _data   = data;
       _status = DATA_WRAP;
@@ -175,18 +161,8 @@ class Array {
   /// \tparam V foreign value type
   /// \param other another array
   template <class V>
-  explicit Array(const Array<V>& other)
-      : _data(new (std::nothrow) value_type[other.size()]),
-        _size(other.size()),
-        _cap(_size),
-        _status(DATA_OWN),
-        _counts(new _RefCount()) {
-    hif_assert(_data, "memory allocation failed");
-    if (!_data) {
-      _size = _cap = 0u;
-      _status      = DATA_UNDEF;
-    } else
-      std::copy(other.cbegin(), other.cend(), _data);
+  explicit Array(const Array<V>& other) : Array(other.size()) {
+    std::copy(other.cbegin(), other.cend(), _data);
   }
 
   /// \brief destructor, handle shallow copy and external data
@@ -211,7 +187,12 @@ class Array {
   /// \note the default copy constructor is shallow
   /// \param[in] other another Array
   /// \param[in] clone if \a true, then do deep copy, default is \a false
-  Array(const Array& other, bool clone = false) {
+  Array(const Array& other, bool clone = false)
+      : _data(nullptr),
+        _size(0),
+        _cap(0),
+        _status(DATA_UNDEF),
+        _counts(nullptr) {
     if (!clone) {
       // shallow
       _counts = other._counts;  // reference the counter
@@ -219,16 +200,13 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter (a moved-from array has none)
+      if (_counts) _counts->inc();
     } else {
       // deep copy
-      _counts = new _RefCount();
-      _data   = new value_type[other._size];
-      _size   = other._size;
-      _cap    = _size;
-      _status = DATA_OWN;
-      std::copy_n(other._data, _size, _data);
+      Array tmp(other._size);
+      std::copy_n(other._data, other._size, tmp._data);
+      swap(tmp);
     }
   }
 
@@ -258,7 +236,7 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // first, deallocate this
       this->~Array();
       _data   = other._data;
@@ -266,7 +244,7 @@ class Array {
       _cap    = other._cap;
       _status = other._status;
       _counts = other._counts;
-      _counts->inc();
+      if (_counts) _counts->inc();
     }
     return *this;
   }
@@ -275,7 +253,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
@@ -355,24 +333,12 @@ class Array {
       _size = n;
       return;
     }
-    const size_type cap  = _size ? 1.2 * n : n;  // 20% more
-    pointer         data = new (std::nothrow) value_type[cap];
-    hif_assert(data, "memory allocation failed");
-    if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
-      return;
-    }
-    if (presv) std::copy_n(_data, _size, data);
-    // now call destructor
-    this->~Array();
-    // since we own a new database, reset the counter
-    _counts = new _RefCount();
-    _data   = data;
-    _size   = n;
-    _cap    = cap;
-    _status = DATA_OWN;
+    const size_type cap = _size ? 1.2 * n : n;  // 20% more
+    // allocate first, so that a failure leaves this array untouched
+    Array tmp(cap);
+    if (presv) std::copy_n(_data, _size, tmp._data);
+    tmp._size = n;
+    swap(tmp);
   }
 
   /// \brief reserve space for Array
@@ -382,24 +348,11 @@ class Array {
   inline void reserve(const size_type n) {
     hif_assert(_status != DATA_WRAP, "cannot call reserve for external data");
     if (_cap >= n) return;
-    pointer data = new (std::nothrow) value_type[n];
-    hif_assert(data, "memory allocation failed");
-    if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
-      return;
-    }
-    std::copy_n(_data, _size, data);
-    const size_type size_bak = _size;
-    // now call destructor
-    this->~Array();
-    // since we own a new database, reset the counter
-    _counts = new _RefCount();
-    _data   = data;
-    _cap    = n;
-    _size   = size_bak;
-    _status = DATA_OWN;
+    // allocate first, so that a failure leaves this array untouched
+    Array tmp(n);
+    std::copy_n(_data, _size, tmp._data);
+    tmp._size = _size;
+    swap(tmp);
   }
 
   /// \brief append a new value
@@ -458,6 +411,13 @@ class Array {
  private:
   _RefCount* _counts;  ///< reference counter
 
+  /// \brief allocate a buffer, a failure is always reported as an error
+  static inline pointer _allocate(const size_type n) {
+    pointer data = new (std::nothrow) value_type[n];
+    hif_error_if(!data, "memory allocation failed");
+    return data;
+  }
+
   template <class _T>
   friend void steal_array_ownership(Array<_T>&                     arr,
                                     typename Array<_T>::pointer&   data,
diff --git a/src/hif/ds/DenseMatrix.hpp b/src/hif/ds/DenseMatrix.hpp
index b49884a..4398157 100644
--- a/src/hif/ds/DenseMatrix.hpp
+++ b/src/hif/ds/DenseMatrix.hpp
@@ -261,9 +261,9 @@ class DenseMatrix {
   /// \warning The value positions may be changed!
   inline void resize(const size_type n1, const size_type n2) {
     if (n1 == _nrows && n2 == _ncols) return;
+    _data.resize(n1 * n2);
     _nrows = n1;
     _ncols = n2;
-    _data.resize(n1 * n2);
   }
 
   // accessing
-- 
2.43.0


From 64dada3674cf92bf145e74190380e900b028b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 02/59] fix: partition parallel work by the delivered thread
 team

The OpenMP runtime may deliver fewer threads than requested; the rows of the
missing threads were then never computed. Memory for the Schur complement is
now allocated outside of the parallel region (an error could not be reported
from inside), the parallel dropping handles non-positive space factors like the
serial one, and the shared thread count is updated atomically.
---
 src/hif/alg/Schur.hpp   | 42 +++++++++++++++++++++--------------------
 src/hif/utils/mt.hpp    | 34 ++++++++++++++++++++++++---------
 src/hif/utils/mt_mv.hpp |  8 ++++----
 3 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..ff04f5a 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -433,7 +433,7 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 
   const size_type n = L_E.nrows();
   hif_assert(n == U_F.ncols(), "mismatched sizes between L_E and U_F");
-  if (nthreads == 1 || n <= 200u) {
+  if (nthreads == 1 || n <= 200u || alpha_L <= 0 || alpha_U <= 0) {
     drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
     drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     return;
@@ -447,10 +447,9 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 #pragma omp parallel num_threads(2) default(shared)
     do {
       const int thread = get_thread();
-      if (thread)
+      if (thread == get_team_size() - 1)
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      if (thread == 0) drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -462,7 +461,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   do {
     // determine thread id and work of partition
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const int       nteam     = get_team_size();
+    const auto      part      = uniform_partition(n, nteam, thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +542,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == nteam - 1) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +625,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
@@ -656,21 +657,22 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
       // NOTE we only get the local value here
       row_start[i + 1] = buf.size();
     }
+  } while (false);  // end of parallel region
 
-    // bottleneck
+  // bottleneck, outside of parallel regions because memory allocation can fail
+  for (size_type i(0); i < N; ++i) row_start[i + 1] += row_start[i];
+  if (row_start[N] == 0) return SC;
+  SC.reserve(row_start[N]);
+  SC.col_ind().resize(row_start[N]);
+  SC.vals().resize(row_start[N]);
 
-#pragma omp barrier
-#pragma omp master
-    do {
-      for (size_type i(0); i < N; ++i) row_start[i + 1] += row_start[i];
-      if (row_start[N]) {
-        SC.reserve(row_start[N]);
-        SC.col_ind().resize(row_start[N]);
-        SC.vals().resize(row_start[N]);
-      }
-    } while (false);
-#pragma omp barrier
-    if (row_start[N] == 0) break;
+#pragma omp parallel num_threads(nthreads) default(shared)
+  do {
+    const int       thread    = get_thread();
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
+    const size_type start_idx = part.first, poe_idx = part.second;
+    auto &          buf       = bufs[thread];
+    size_type       tag(n + N);  // all tags used in step 1 are smaller
 
     // step 2, fill in the indices
     for (size_type i(start_idx); i < poe_idx; ++i, ++tag) {
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..8ad7860 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -34,6 +34,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #  include <cstdlib>
 #endif
 
+#include <atomic>
 #include <cstddef>
 #include <limits>
 #include <utility>
@@ -52,26 +53,28 @@ namespace mt {
 /// If \a threads is the INT_MAX, then query the system threads without
 /// initializing (if haven't). If \a threads is not positive, then set HIF
 /// threads to be system threads, else set it to be user threads, and then
-/// return it. Thread-safe only when \a threads is INT_MAX
+/// return it. The stored value is shared by all callers, but updating it is
+/// safe, and each caller gets the value of its own request.
 inline int get_nthreads(const int threads = std::numeric_limits<int>::max()) {
 #ifdef _OPENMP
-  static int _nthreads = 0;
+  static std::atomic<int> _nthreads(0);
   if (threads == std::numeric_limits<int>::max()) return _nthreads;
+  int n = threads;
   if (threads <= 0) {
     const char *env_threads = std::getenv("HIF_NUM_THREADS");
     if (env_threads) {
-      _nthreads = std::atoi(env_threads);
+      n = std::atoi(env_threads);
     } else {
       env_threads = std::getenv("OMP_NUM_THREADS");
       if (env_threads)
-        _nthreads = std::atoi(env_threads);
+        n = std::atoi(env_threads);
       else
-        _nthreads = omp_get_max_threads();
+        n = omp_get_max_threads();
     }
-    if (_nthreads < 1) _nthreads = 1;
-  } else
-    _nthreads = threads;
-  return _nthreads;
+    if (n < 1) n = 1;
+  }
+  _nthreads = n;
+  return n;
 #else
   (void)threads;
   return 1;
@@ -87,6 +90,19 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get the size of "my" thread team
+///
+/// The team of a parallel region can be smaller than what was requested (thread
+/// limits, dynamic adjustment, nested regions), thus work must be partitioned
+/// by the actual team size.
+inline int get_team_size() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..200501c 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +91,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +142,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +169,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From c6a4af9267a57e5a6347c58f1ee59df53c0e3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 03/59] fix: solve with multiple right-hand sides on multilevel
 preconditioners

The intermediate right-hand side was copied in the wrong direction before and
after recursing to the next level, and the work buffer allocated by solve (for
one right-hand side) was reused although it is too small.
---
 src/hif/alg/prec_solve.hpp | 6 +++---
 src/hif/builder.hpp        | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..a93c381 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -484,17 +484,17 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
     // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
+    auto work_next = work_array_type(work.size() - n, &work[0] + n, WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..4e2ef15 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,8 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    // NOTE the buffer may have been allocated by other solve interfaces
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From d30489ced0749a30ac4b15c48101a410a2748898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 04/59] fix: leave an empty, reusable preconditioner after a
 failed factorization

An error during factorize left the levels built so far (and the work buffer of
the previous factorization) in the object, which was then applied as if it were
complete. Sizes are now also reset by clear and initialized, and refinement on
an empty object is an error for every right-hand side.
---
 src/hif/builder.hpp | 48 +++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 4e2ef15..a727303 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -245,7 +245,7 @@ class HIF {
 
   /// \brief clear internal storage
   inline void clear() {
-    _precs.clear();
+    _reset();
     // _prec_work.resize(0);
     work_array_type().swap(_prec_work);
     nsp.reset();
@@ -274,6 +274,15 @@ class HIF {
         sizeof(index_type) == sizeof(typename CsType::index_type),
         "inconsistent indptr types");
 
+    // if the factorization stops with an error, then leave an empty object instead
+    // of a partially built (or an outdated) one
+    struct Rollback {
+      HIF *self;
+      ~Rollback() {
+        if (self) self->_reset();
+      }
+    } rollback = {this};
+
     // print introduction
     if (hif_verbose(INFO, params)) {
       if (!internal::introduced) {
@@ -288,22 +297,15 @@ class HIF {
       }
     }
 
-    _nrows = A.nrows();
-    _ncols = A.ncols();
-
     DefaultTimer t;  // record overall time
     t.start();
-    if (!empty()) {
-      if (hif_verbose(INFO, params))
-        hif_info("multilevel precs are not empty, wipe previous results first");
-      _precs.clear();
-      // also clear the previous buffer
-      _prec_work.resize(0);
-    }
+    if (!empty() && hif_verbose(INFO, params))
+      hif_info("multilevel precs are not empty, wipe previous results first");
+    // also clear the previous buffer and initialize statistics
+    _reset();
+    _nrows = A.nrows();
+    _ncols = A.ncols();
     const int schur_threads = mt::get_nthreads(params.threads);
-    // initialize statistics
-    for (size_type i(0); i < sizeof(_stats) / sizeof(size_type); ++i)
-      _stats[i] = 0;
 
     cs_type AA;
     AA.resize(A.nrows(), A.ncols());
@@ -363,6 +365,7 @@ class HIF {
                (double)Nnz / A.nnz());
       hif_info("\nmultilevel precs building time (overall) is %gs", t.time());
     }
+    rollback.self = nullptr;
   }
 
   /// \brief factorize the HIF preconditioner with generic interface
@@ -462,6 +465,7 @@ class HIF {
                     const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
     _ir.iter_refine(*this, A, b, N, x, r, trans);
   }
 
@@ -486,6 +490,7 @@ class HIF {
       const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
   }
 
@@ -513,6 +518,15 @@ class HIF {
   }
 
  protected:
+  /// \brief drop the held factors, does not allocate memory
+  inline void _reset() {
+    _precs.clear();
+    _prec_work.resize(0);
+    _nrows = _ncols = 0;
+    for (size_type i(0); i < sizeof(_stats) / sizeof(size_type); ++i)
+      _stats[i] = 0;
+  }
+
   template <class CsType, class CroutStreamer>
   inline void _factorize_kernel(const CsType &A, const size_type m0,
                                 const Params &opts, iarray_type &row_sizes,
@@ -579,9 +593,9 @@ class HIF {
   precs_type              _precs;  ///< multilevel preconditioners
   mutable work_array_type _prec_work;
   ///< preconditioner work space for solving
-  size_type                    _stats[6];  ///< statistics
-  size_type                    _nrows;     ///< number of rows from user input
-  size_type                    _ncols;  ///< number of columns from user input
+  size_type                    _stats[6] = {};  ///< statistics
+  size_type                    _nrows = 0;  ///< number of rows from user input
+  size_type                    _ncols = 0;  ///< number of columns from user input
   IterRefine<boost_value_type> _ir;     ///< high-precision iterative refinement
 };
 
-- 
2.43.0


From 39fd6a7afc51256fe14badcb681c9881898cb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 05/59] fix: data race on the flag for printing the
 introduction

---
 src/hif/builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index a727303..f480ba6 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -30,6 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_BUILDER_HPP
 
 #include <algorithm>
+#include <atomic>
 #include <iterator>
 #include <numeric>
 #include <type_traits>
@@ -67,7 +68,7 @@ const static char *intro =
     "\t* Version: %d.%d.%d\n"
     "\n"
     "=======================================================================\n";
-static bool introduced = false;
+static std::atomic<bool> introduced(false);
 }  // namespace internal
 #endif  // DOXYGEN_SHOULD_SKIP_THIS
 
-- 
2.43.0


From 21d3799d0c6e1528e7ebb2c06e52ef8da1d3689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 06/59] fix: address of the right-hand side in SYEIG with
 multiple right-hand sides

Column i of the buffer was addressed as column i*Nrhs, which is out of bounds.
---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..c8b4151 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -234,7 +234,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -243,7 +243,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -300,7 +300,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -309,7 +309,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From f5c2b54e380861bbc0bcd414b75556b96f63453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 07/59] fix: rank detection of the symmetric dense solver

The eigenvalues are ascending, but for positive (negative) definite systems the
largest (smallest) ones were tested and truncated. For indefinite systems the
threshold was negative if the dominating eigenvalue is negative.
---
 src/hif/small_scale/SYEIG.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index c8b4151..1e3ddff 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,23 +134,24 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const value_type a, const value_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
     if (opts.spd > 0) {
-      // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // ensure pd-ness, the eigenvalues are in ascending order
+      // reverse the order for truncations
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From c0102060bb43fbc610266f90d1465cd9476d0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 08/59] fix: transposed solve of LUP for complex systems

The transpose flag means Hermitian everywhere else (including LUP::multiply).
---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From a77e0e02ac7b7e1e3ac83d85641ad38d314c03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 09/59] fix: check the result of LAPACK work space queries

A failed query left the size uninitialized, which was then used to allocate.
---
 src/hif/small_scale/QRCP.hpp  | 44 ++++++++++++++++++++---------------
 src/hif/small_scale/SYEIG.hpp |  5 ++--
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..c5d1cbc 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -127,9 +127,11 @@ class QRCP {
     _tau.resize(std::min(_mat.nrows(), _mat.ncols()));
 
     // query the buffer size
-    value_type lwork;
-    lapack_kernel::geqp3(_mat.nrows(), _mat.ncols(), _mat.data(), _mat.nrows(),
-                         _jpvt.data(), _tau.data(), &lwork, -1, nullptr);
+    value_type lwork(0);
+    hif_error_if(lapack_kernel::geqp3(_mat.nrows(), _mat.ncols(), _mat.data(),
+                                      _mat.nrows(), _jpvt.data(), _tau.data(),
+                                      &lwork, -1, nullptr) < 0,
+                 "GEQP3 returned negative info (work space query)");
     _work.resize((size_type)abs(lwork));
 
     // allocate space for complex arith
@@ -376,10 +378,11 @@ class QRCP {
     const size_type rk =
         rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
     // query the optimal work space
-    value_type lwork;
-    lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk, _mat.data(),
-                         _mat.nrows(), _tau.data(), x, _mat.nrows(), &lwork,
-                         -1);
+    value_type lwork(0);
+    hif_error_if(lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk,
+                                      _mat.data(), _mat.nrows(), _tau.data(), x,
+                                      _mat.nrows(), &lwork, -1) < 0,
+                 "ORMQR returned negative info (work space query)");
     _work.resize((size_type)abs(lwork));
 
     // compute x=Q(:,1:_rank)'*x
@@ -439,10 +442,11 @@ class QRCP {
                           x + i * _mat.nrows(), 1);
 
     // query the optimal work space
-    value_type lwork;
-    lapack_kernel::ormqr('L', 'N', _mat.nrows(), Nrhs, rk, _mat.data(),
-                         _mat.nrows(), _tau.data(), x, _mat.nrows(), &lwork,
-                         -1);
+    value_type lwork(0);
+    hif_error_if(lapack_kernel::ormqr('L', 'N', _mat.nrows(), Nrhs, rk,
+                                      _mat.data(), _mat.nrows(), _tau.data(), x,
+                                      _mat.nrows(), &lwork, -1) < 0,
+                 "ORMQR returned negative info (work space query)");
     _work.resize((size_type)abs(lwork));
 
     // compute x=Q(:,1:_rank)*x
@@ -481,10 +485,11 @@ class QRCP {
                           x + i * _mat.nrows(), 1);
 
     // query the optimal work space
-    value_type lwork;
-    lapack_kernel::ormqr('L', 'N', _mat.nrows(), Nrhs, rk, _mat.data(),
-                         _mat.nrows(), _tau.data(), x, _mat.nrows(), &lwork,
-                         -1);
+    value_type lwork(0);
+    hif_error_if(lapack_kernel::ormqr('L', 'N', _mat.nrows(), Nrhs, rk,
+                                      _mat.data(), _mat.nrows(), _tau.data(), x,
+                                      _mat.nrows(), &lwork, -1) < 0,
+                 "ORMQR returned negative info (work space query)");
     _work.resize((size_type)abs(lwork));
 
     // compute x=Q(:,1:_rank)*x
@@ -507,10 +512,11 @@ class QRCP {
     const size_type rk =
         rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
     // query the optimal work space
-    value_type lwork;
-    lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk, _mat.data(),
-                         _mat.nrows(), _tau.data(), x, _mat.nrows(), &lwork,
-                         -1);
+    value_type lwork(0);
+    hif_error_if(lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk,
+                                      _mat.data(), _mat.nrows(), _tau.data(), x,
+                                      _mat.nrows(), &lwork, -1) < 0,
+                 "ORMQR returned negative info (work space query)");
     _work.resize((size_type)abs(lwork));
 
     // compute x=Q(:,1:_rank)'*x
diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 1e3ddff..42a9372 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -116,8 +116,9 @@ class SYEIG {
     // esimate the workspace
     if (!lapack_kernel::IS_REAL)
       _rwork.resize(std::max(1, int(3 * _mat.nrows() - 2)));
-    value_type sz;
-    lapack_kernel::syev('L', _mat, _w, &sz, -1, _rwork);
+    value_type sz(0);
+    if (lapack_kernel::syev('L', _mat, _w, &sz, -1, _rwork) < 0)
+      hif_error("?syev failed in work space query.");
     const auto n = _mat.nrows();
     _work.resize(std::max((size_type)abs(sz), n));
 
-- 
2.43.0


From 25c12966c4ed64140c31899c53d50f3c7e52f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/59] fix: give RCM a symmetric graph and check the block
 range before its mask

---
 src/hif/pre/matching_scaling.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..94adca1 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
@@ -442,7 +442,11 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   if (compute_perm && m) {
     p.build_inv();
     // to see if we need to build A^T+A pattern
-    const bool build_apat = !IsSymm && opts.reorder == REORDER_RCM;
+    // NOTE RCM needs a symmetric graph, and a symmetric permutation does not
+    // imply that the pattern of the leading block is symmetric
+    const bool build_apat =
+        opts.reorder == REORDER_RCM ||
+        (opts.reorder == REORDER_AUTO && IsSymm && level == 1u && m != m0);
     if (build_apat) q.build_inv();
     BB = internal::compute_leading_block(A, A_crs, m, p, q, build_apat);
   }
-- 
2.43.0


From 45c52c3567cc21a408ff0ee686e1d499fda68871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 11/59] fix: do not take extrema of an empty factor in verbose
 output

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..d068ce0 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1060,7 +1060,7 @@ inline CsType level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (hif_verbose(INFO2, opts) && m) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..dc5e912 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -505,7 +505,7 @@ inline CsType pivot_level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (hif_verbose(INFO2, opts) && m) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..e41285f 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -460,7 +460,7 @@ inline CsType symm_level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (hif_verbose(INFO2, opts) && m) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
-- 
2.43.0


From 011b0865f520639d4bdfc50a28ae03de68f175c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 12/59] fix: check the arrays of the input matrix before
 following them

---
 src/hif/builder.hpp              | 28 ++++++++++++++++++----------
 src/hif/ds/CompressedStorage.hpp | 13 ++++++++++---
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index f480ba6..8804ab9 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -308,41 +308,49 @@ class HIF {
     _ncols = A.ncols();
     const int schur_threads = mt::get_nthreads(params.threads);
 
+    // number of primary entries and of nonzeros, the arrays can be longer
+    const size_type psize = CsType::ROW_MAJOR ? A.nrows() : A.ncols();
+    size_type       nz    = 0;
+
     cs_type AA;
     AA.resize(A.nrows(), A.ncols());
     // check index base
     if (A.nrows()) {
+      hif_error_if(A.ind_start().size() < psize + 1u,
+                   "invalid length of the start array");
+      nz = A.ind_start()[psize] - A.ind_start()[0];
+      hif_error_if(nz > A.inds().size() || nz > A.vals().size(),
+                   "invalid length of the indices or values");
       if (A.ind_start()[0] == indptr_type(0)) {
         // 0-based, shallow copy
         AA.ind_start() = iparray_type(
-            A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
-        AA.inds() =
-            iarray_type(A.inds().size(), (index_type *)A.inds().data(), true);
+            psize + 1u, (indptr_type *)A.ind_start().data(), true);
+        AA.inds() = iarray_type(nz, (index_type *)A.inds().data(), true);
       } else if (A.ind_start()[0] == indptr_type(1)) {
         // 1-based
         if (hif_verbose(INFO, params))
           hif_info("converting to 0-based compressed matrix...");
-        AA.ind_start().resize(A.ind_start().size());
-        for (size_type i(0); i < A.ind_start().size(); ++i)
+        AA.ind_start().resize(psize + 1u);
+        for (size_type i(0); i < psize + 1u; ++i)
           AA.ind_start()[i] = A.ind_start()[i] - 1;
-        AA.inds().resize(A.inds().size());
-        for (size_type i(0); i < A.inds().size(); ++i)
+        AA.inds().resize(nz);
+        for (size_type i(0); i < nz; ++i)
           AA.inds()[i] = A.inds()[i] - 1;
       } else
         hif_error("only {0,1}-based compressed sparse matrices are supported!");
     }
     // check value type consistency
     if (std::is_same<value_type, typename CsType::value_type>::value)
-      AA.vals() = array_type(A.nnz(), (value_type *)A.vals().data(), true);
+      AA.vals() = array_type(nz, (value_type *)A.vals().data(), true);
     else {
       if (hif_verbose(INFO, params))
         hif_info("converting value type precision...");
       // shallow integer arrays
       AA.resize(A.nrows(), A.ncols());
-      AA.vals().resize(A.nnz());
+      AA.vals().resize(nz);
       hif_error_if(AA.vals().status() == DATA_UNDEF,
                    "memory allocation failed");
-      std::copy(A.vals().cbegin(), A.vals().cend(), AA.vals().begin());
+      std::copy_n(A.vals().cbegin(), nz, AA.vals().begin());
     }
     // check validity of the input system
     if (params.check) {
diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..9fa9397 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -194,16 +194,23 @@ class CompressedStorage {
     static const char *pname = IsRow ? "row" : "column";
     static const char *oname = IsRow ? "column" : "row";
 
-    if (status() != DATA_UNDEF) {
+    // NOTE the start array can be damaged even if there are no entries
+    if (status() != DATA_UNDEF || _psize) {
       hif_error_if(_ind_start.size() < _psize + 1,
                    "invalid %s size and %s start array length", pname, pname);
       hif_error_if(_ind_start.front() != 0,
                    "the leading entry in %s start should be zero", pname);
-      if (nnz() > _indices.size() || nnz() > _vals.size())
+      // NOTE the start array must be checked before using it to access entries
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i + 1] < _ind_start[i],
+                     "%s start array is decreasing at %s %zd (C-based)", pname,
+                     pname, i);
+      const size_type nz = _ind_start[_psize];
+      if (nz > _indices.size() || nz > _vals.size() || nz != nnz())
         hif_error(
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
-            pname, pname, nnz(), _indices.size(), _vals.size());
+            pname, pname, nz, _indices.size(), _vals.size());
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
-- 
2.43.0


From 705dee8e4d0ca1c37cdb3061866c18b54a418751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 13/59] fix: matching of matrices with non-finite or explicitly
 stored zero values

---
 src/hif/pre/equilibrate.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..7b1717e 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_PRE_EQUILIBRATE_HPP
 
 #include <cmath>
+#include <limits>
 #include <vector>
 
 #define _PAR_NUM 10
@@ -78,7 +79,7 @@ inline void compute(const _Integer n, const _Integer ne, const _Integer *indptr,
   --work;
   --pars;
   --info;
-  rinf = sizeof(_Real) == 8u ? HUGE_VAL : HUGE_VALF;
+  rinf = std::numeric_limits<_Real>::max();
   if (n < 1) {
     info[1] = -2;
     info[2] = n;
@@ -125,6 +126,11 @@ inline void compute(const _Integer n, const _Integer ne, const _Integer *indptr,
     const _Integer kstop = indptr[j + 1] - 1;
     for (k = indptr[j]; k <= kstop; ++k) {
       work[n * 3 + k] = std::abs(vals[k]);
+      if (!(work[n * 3 + k] <= rinf)) {  // Inf or NaN
+        info[1] = -8;
+        info[2] = j;
+        return;
+      }
       if (work[n * 3 + k] > fact) fact = work[n * 3 + k];
     }
     work[(n << 1) + j] = fact;
@@ -406,7 +412,7 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
   --a;
   --irn;
   // initialize
-  rinf = sizeof(_Real) == 8u ? HUGE_VAL : HUGE_VALF;
+  rinf = std::numeric_limits<_Real>::max();
   *num = 0;
   for (k = 1; k <= n; ++k) {
     u[k]     = rinf;
-- 
2.43.0


From c19ecde874ac8c909f8a920f8d18d8f1d390a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 14/59] fix: bound of HIF::prec is the number of held levels

---
 src/hif/builder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 8804ab9..23396b2 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -237,8 +237,10 @@ class HIF {
   /// \brief get constant reference to a specific level
   /// \note This function takes linear time complexity
   inline const prec_type &prec(const size_type level) const {
-    hif_error_if(level >= levels(), "%zd exceeds the total level number %zd",
-                 level, levels());
+    // NOTE levels() also counts the dense last level, which is held by the last
+    // entry of the list
+    hif_error_if(level >= _precs.size(),
+                 "%zd exceeds the total level number %zd", level, _precs.size());
     auto itr = _precs.cbegin();
     std::advance(itr, level);
     return *itr;
-- 
2.43.0


From 14e633111ccd8289b5e27868497450f5f728bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 15/59] fix: honour the leading block size without
 preprocessing and reject one that is too large

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 src/hif/builder.hpp          | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index d068ce0..cae84d4 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,7 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index dc5e912..5554836 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -156,7 +156,7 @@ inline CsType pivot_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
 
   timer.finish();  // prefile pre-processing
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index e41285f..7bd799c 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -197,7 +197,7 @@ inline CsType symm_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 23396b2..ee9dc79 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -314,6 +314,10 @@ class HIF {
     const size_type psize = CsType::ROW_MAJOR ? A.nrows() : A.ncols();
     size_type       nz    = 0;
 
+    hif_error_if(m0 > std::min(A.nrows(), A.ncols()),
+                 "leading block size %zd exceeds the matrix sizes (%zd,%zd)",
+                 (size_type)m0, (size_type)A.nrows(), (size_type)A.ncols());
+
     cs_type AA;
     AA.resize(A.nrows(), A.ncols());
     // check index base
-- 
2.43.0


From de7e7b67a46880450453e59ecdc5524de09aa51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 16/59] fix: numerical rank of a zero dense last level

---
 src/hif/small_scale/QRCP.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index c5d1cbc..dd7b562 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -150,7 +150,7 @@ class QRCP {
     // weighted by R(0,0)
     const scalar_type diag_eps = diag_tol * std::abs(_mat[0]);
     for (size_type i = N; i != 0u; --i)
-      if (std::abs(_mat(i - 1, i - 1)) < diag_eps) {
+      if (std::abs(_mat(i - 1, i - 1)) <= diag_eps) {
         if (hif_verbose(INFO, opts)) {
           hif_info(
               "\n  System is ill-conditioned (diagonal %zd is smaller\n"
@@ -336,6 +336,11 @@ class QRCP {
     static constexpr typename lapack_kernel::int_type JOB_MIN = 2, JOB_MAX = 1;
 
     const size_type n = _mat.ncols();
+    if (_mat(0, 0) == value_type(0)) {
+      // zero matrix, see ?gelsy
+      _rank = 0u;
+      return;
+    }
     _work.resize(2 * n);                 // allocate buffer
     auto *x = _work.data(), *y = x + n;  // used in ?laic1
     x[0] = y[0] = value_type(1);
-- 
2.43.0


From a3b5f87aa8dea3f2a74d94c00bf996257b4bf8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 17/59] fix: keep the null-space filter when an empty callback
 is rejected

---
 src/hif/NspFilter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/NspFilter.hpp b/src/hif/NspFilter.hpp
index ab746e1..ff38863 100644
--- a/src/hif/NspFilter.hpp
+++ b/src/hif/NspFilter.hpp
@@ -129,8 +129,8 @@ class NspFilter {
 
   /// \brief set null space callback
   inline void set_nsp_callback(const user_cb_type &f) {
+    if (!f) hif_error("empty user callback was not attached!");
     _user_f = f;
-    if (!_user_f) hif_error("empty user callback was not attached!");
     _type = USER_CB;
   }
 
-- 
2.43.0


From 2759fe7432c4d00707711335d08cdf9c44b75f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/59] fix: reject vectors whose length differs from the order
 of the preconditioner

---
 src/hif/builder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index ee9dc79..510dfe7 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -428,7 +428,7 @@ class HIF {
   inline void solve(const RhsType &b, SolType &x, const bool trans = false,
                     const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != nrows() || x.size() != ncols(), "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
@@ -453,7 +453,7 @@ class HIF {
                          Array<std::array<SolValueType, Nrhs>> &      x,
                          const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != nrows() || x.size() != ncols(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     // NOTE the buffer may have been allocated by other solve interfaces
@@ -481,6 +481,7 @@ class HIF {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != nrows() || x.size() != ncols(), "unmatched sizes");
     _ir.iter_refine(*this, A, b, N, x, r, trans);
   }
 
@@ -506,6 +507,7 @@ class HIF {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != nrows() || x.size() != ncols(), "unmatched sizes");
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
   }
 
@@ -524,7 +526,7 @@ class HIF {
   inline void mmultiply(const RhsType &x, SolType &y, const bool trans = false,
                         const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(y.size() != x.size(), "unmatched sizes");
+    hif_error_if(x.size() != ncols() || y.size() != nrows(), "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
-- 
2.43.0


From 52b073a9f8e465a09ab8d235505c82816b01940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 19/59] fix: close MatrixMarket files whatever error ends the
 reading

---
 libhifir/src/libhifir.cpp |  2 +-
 src/hif/utils/io.hpp      | 48 +++++++++++++++------------------------
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..d7e9277 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -273,6 +273,7 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   // open the file
   std::FILE *f = std::fopen(fname, "r");
   if (!f) return LHF_NULL_OBJ;
+  const hif::internal::MmFileGuard guard(f);
   bool is_sparse2, is_real2;
   int  type_id;
   // parse the first line
@@ -286,7 +287,6 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     *nnz = 0u;
     hif::internal::mm_read_dense_size(f, *nrows, *ncols);
   }
-  std::fclose(f);
   return LHF_SUCCESS;
 }
 
diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..a45baa0 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -542,6 +542,18 @@ set_imag(const double i, V &x) {
  * @{
  */
 
+/// \brief Close an input file when leaving the scope, errors included
+class MmFileGuard {
+ public:
+  explicit MmFileGuard(std::FILE *f) : _f(f) {}
+  ~MmFileGuard() { std::fclose(_f); }
+  MmFileGuard(const MmFileGuard &) = delete;
+  MmFileGuard &operator=(const MmFileGuard &) = delete;
+
+ private:
+  std::FILE *_f;  ///< file handle
+};
+
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
 inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
@@ -571,7 +583,6 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
     const int flag = IsReal ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
                             : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
     if (flag != 4 - IsReal) {
-      std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
     rows[index] = r - 1;  // to 0-based index
@@ -608,7 +619,6 @@ inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
                             : std::fscanf(f, "%lg %lg", &vr, &vi);
     if (flag != 2 - IsReal) {
-      std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
     set_real(vr, v[i]);
@@ -630,12 +640,10 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
   if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
-    std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
   }
   std::string banner_str(banner);
   if (banner_str != std::string("%%MatrixMarket")) {
-    std::fclose(f);
     hif_error("incorrect banner");
   }
 
@@ -647,7 +655,6 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   };
   to_lower(mtx_str);
   if (mtx_str != std::string("matrix")) {
-    std::fclose(f);
     hif_error("incorrect mtx");
   }
 
@@ -658,14 +665,12 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   to_lower(storage_scheme_str);
 
   if (crd_str != std::string("coordinate") && crd_str != std::string("array")) {
-    std::fclose(f);
     hif_error("unknown crd %s", crd_str.c_str());
   }
   is_sparse = crd_str != std::string("array");
 
   if (data_type_str != std::string("real") &&
       data_type_str != std::string("complex")) {
-    std::fclose(f);
     hif_error("HIFIR unsupported data type %s", data_type_str.c_str());
   }
   is_real = data_type_str != std::string("complex");
@@ -679,7 +684,6 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   else if (storage_scheme_str == std::string("skew-symmetric"))
     type_id = 3;
   else {
-    std::fclose(f);
     hif_error("unknown storage_scheme %s", storage_scheme_str.c_str());
   }
 }
@@ -694,7 +698,6 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
   /* now continue scanning until you reach the end-of-comments */
   do {
     if (!std::fgets(line, 1025, f)) {
-      std::fclose(f);
       hif_error("unable to read file");
     }
   } while (line[0] == '%');
@@ -711,7 +714,6 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
   do {
     num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
     if (num_items_read == EOF) {
-      std::fclose(f);
       hif_error("reached EOF!");
     }
   } while (num_items_read != 3);
@@ -729,7 +731,6 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
   /* now continue scanning until you reach the end-of-comments */
   do {
     if (!std::fgets(line, 1025, f)) {
-      std::fclose(f);
       hif_error("unable to read file");
     }
   } while (line[0] == '%');
@@ -745,7 +746,6 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
   do {
     num_items_read = std::fscanf(f, "%d %d", &m, &n);
     if (num_items_read == EOF) {
-      std::fclose(f);
       hif_error("reached EOF!");
     }
   } while (num_items_read != 2);
@@ -785,19 +785,14 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   // open the file
   std::FILE *f = std::fopen(filename, "r");
   hif_error_if(!f, "unable to open matrix market file %s", filename);
+  const internal::MmFileGuard guard(f);
   bool is_sparse, is_real;
   int  type_id;
   // parse the first line
   internal::mm_read_firstline(f, is_sparse, is_real, type_id);
-  if (!is_sparse) {
-    std::fclose(f);
-    hif_error("must be sparse matrix");
-  }
-  if (std::is_floating_point<ValueType>::value ^ is_real) {
-    // XOR
-    std::fclose(f);
+  if (!is_sparse) hif_error("must be sparse matrix");
+  if (std::is_floating_point<ValueType>::value ^ is_real)  // XOR
     hif_error("data types did not match between array and file");
-  }
   std::size_t nnz;
   internal::mm_read_sparse_size(f, nrows, ncols, nnz);
   // read data
@@ -820,7 +815,6 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
     else
       internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
   }
-  std::fclose(f);
 }
 
 /// \brief Read vector from a MatrixMarket file
@@ -834,19 +828,14 @@ inline void read_mm_vector(const char *filename, Array<ValueType> &v) {
   // open the file
   std::FILE *f = std::fopen(filename, "r");
   hif_error_if(!f, "unable to open matrix market file %s", filename);
+  const internal::MmFileGuard guard(f);
   bool is_sparse, is_real;
   int  type_id;
   // parse the first line
   internal::mm_read_firstline(f, is_sparse, is_real, type_id);
-  if (is_sparse) {
-    std::fclose(f);
-    hif_error("must be dense matrix");
-  }
-  if (std::is_floating_point<ValueType>::value ^ is_real) {
-    // XOR
-    std::fclose(f);
+  if (is_sparse) hif_error("must be dense matrix");
+  if (std::is_floating_point<ValueType>::value ^ is_real)  // XOR
     hif_error("data types did not match between array and file");
-  }
   std::size_t m, n;
   internal::mm_read_dense_size(f, m, n);
 
@@ -855,7 +844,6 @@ inline void read_mm_vector(const char *filename, Array<ValueType> &v) {
   else
     internal::mm_read_vector_data<false>(f, m, v);
 
-  std::fclose(f);
 }
 
 /// \brief Write a float-point vector to a MatrixMarket file
-- 
2.43.0


From 01438dd62d6f0fb5d6f6cb173751803538a6eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 20/59] fix: bound the tokens read from the first line of a
 MatrixMarket file

---
 src/hif/utils/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index a45baa0..f4e67aa 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -638,8 +638,8 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
 
   // read the first line
   if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
-                  storage_scheme) != 5) {
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd,
+                  data_type, storage_scheme) != 5) {
     hif_error("insufficient number of tokens in the first line");
   }
   std::string banner_str(banner);
-- 
2.43.0


From cdb1b0127c38459e99a708eb99a82f05335f589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 21/59] fix: bound the search for the size line of a
 MatrixMarket file and reject negative sizes

---
 src/hif/utils/io.hpp | 71 +++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index f4e67aa..2bc7c57 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -47,6 +47,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <complex>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <tuple>
 #include <type_traits>
@@ -688,35 +689,28 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   }
 }
 
+/// \brief Internal routine to find the size line after comments and blank lines
+inline void mm_read_size_line(std::FILE *f, char (&line)[1025]) {
+  for (bool head(true), comment(false);;) {
+    if (!std::fgets(line, 1025, f)) hif_error("unable to read file");
+    if (head) comment = line[0] == '%';
+    // NOTE that fgets hands out long lines in several pieces
+    head = std::strchr(line, '\n') != nullptr;
+    if (!comment && line[std::strspn(line, " \t\r\n\v\f")]) return;
+  }
+}
+
 /// \brief Internal routine to read sizes
 inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
                                 std::size_t &ncols, std::size_t &nnz) {
-  char line[1025];
+  char      line[1025];
+  long long m, n, nz;
 
   nrows = ncols = nnz = 0u;
-
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-    if (!std::fgets(line, 1025, f)) {
-      hif_error("unable to read file");
-    }
-  } while (line[0] == '%');
-
-  int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
+  mm_read_size_line(f, line);
+  if (std::sscanf(line, "%lld %lld %lld", &m, &n, &nz) != 3)
+    hif_error("incorrect size line");
+  hif_error_if(m < 0 || n < 0 || nz < 0, "sizes cannot be negative");
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -724,31 +718,14 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
 
 inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
                                std::size_t &ncols) {
-  char line[1025];
+  char      line[1025];
+  long long m, n;
 
   nrows = ncols = 0u;
-
-  /* now continue scanning until you reach the end-of-comments */
-  do {
-    if (!std::fgets(line, 1025, f)) {
-      hif_error("unable to read file");
-    }
-  } while (line[0] == '%');
-
-  int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
+  mm_read_size_line(f, line);
+  if (std::sscanf(line, "%lld %lld", &m, &n) != 2)
+    hif_error("incorrect size line");
+  hif_error_if(m < 0 || n < 0, "sizes cannot be negative");
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From c00557f73ae1270cbfcfd2ffae8878c133e90ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 22/59] fix: reject MatrixMarket entries outside of the matrix

---
 src/hif/utils/io.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 2bc7c57..15b6988 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -49,6 +49,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <cstdio>
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -557,7 +558,8 @@ class MmFileGuard {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -566,6 +568,11 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
                     TypeID == SK_SYMM,
                 "invalid TypeID");
 
+  hif_error_if(nrows > (std::size_t)std::numeric_limits<IndexType>::max() ||
+                   ncols > (std::size_t)std::numeric_limits<IndexType>::max(),
+               "the sizes exceed the index type");
+  hif_error_if(TypeID != GENERAL && nrows != ncols,
+               "only squared matrices can use symmetric storage");
   if (TypeID != GENERAL) {
     // shrink at the end if necessary
     rows.resize(nnz * 2);
@@ -578,14 +585,18 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
   }
 
   std::size_t index(0);
-  int         r, c;
+  long long   r, c;
   double      vr, vi;
   for (std::size_t i(0); i < nnz; ++i) {
-    const int flag = IsReal ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
-                            : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+    const int flag =
+        IsReal ? std::fscanf(f, "%lld %lld %lg", &r, &c, &vr)
+               : std::fscanf(f, "%lld %lld %lg %lg", &r, &c, &vr, &vi);
     if (flag != 4 - IsReal) {
       hif_error("insufficient objects scanned from fscanf");
     }
+    hif_error_if(r < 1 || c < 1 || (std::size_t)r > nrows ||
+                     (std::size_t)c > ncols,
+                 "entry (%lld,%lld) is out of range", r, c);
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
@@ -775,22 +786,22 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows, cols, vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows, cols, vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows, cols, vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows, cols, vals);
   }
 }
 
-- 
2.43.0


From 754321983f94d7fae5b48381dc22d704acb24022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 23/59] fix: report read errors that cut the last number of a
 MatrixMarket file

---
 src/hif/utils/io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 15b6988..b9c9dc1 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -614,6 +614,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
       vals[index] = -vals[index - 1];
     ++index;
   }
+  hif_error_if(std::ferror(f), "error while reading the file");
   if (index != nnz) {
     rows.resize(index);
     cols.resize(index);
@@ -636,6 +637,7 @@ inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
     set_real(vr, v[i]);
     set_imag(vi, v[i]);
   }
+  hif_error_if(std::ferror(f), "error while reading the file");
 }
 
 /// \brief Internal routine to parse the first line
-- 
2.43.0


From 121b0d269d259e2fc9f74cc3ae6f53c7e8988096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 24/59] fix: report errors while writing MatrixMarket files and
 write plain numbers in any locale

---
 src/hif/utils/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index b9c9dc1..705a0c0 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -50,6 +50,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include <cstring>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <tuple>
 #include <type_traits>
 
@@ -851,6 +852,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
 
   std::ofstream f(filename);
   hif_error_if(!f.is_open(), "cannot open file %s", filename);
+  f.imbue(std::locale::classic());  // plain numbers whatever the environment
   f << "%%MatrixMarket matrix array " << DATA_TYPE << " general\n";
   f << "% Written by HIFIR " << HIF_GLOBAL_VERSION << '.' << HIF_MAJOR_VERSION
     << '.' << HIF_MINOR_VERSION << '\n';
@@ -863,6 +865,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
     f << '\n';
   }
   f.close();
+  hif_error_if(!f, "error while writing file %s", filename);
 }
 
 /// \brief Write a sparse matrix
@@ -896,6 +899,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
   if (ind_start.size() == 0u) hif_error("cannot write empty matrix");
   std::ofstream f(filename);
   hif_error_if(!f.is_open(), "cannot open file %s", filename);
+  f.imbue(std::locale::classic());  // plain numbers whatever the environment
   f << "%%MatrixMarket matrix coordinate " << DATA_TYPE << " general\n";
   f << "% Written by HIFIR " << HIF_GLOBAL_VERSION << '.' << HIF_MAJOR_VERSION
     << '.' << HIF_MINOR_VERSION << '\n';
@@ -916,6 +920,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     }
   }
   f.close();
+  hif_error_if(!f, "error while writing file %s", filename);
 }
 
 /*!
-- 
2.43.0


From 3b24891ab81070bd9db4b586e0e9652a04ac61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 25/59] fix: write and read MatrixMarket values with the digits
 of their type

---
 src/hif/utils/io.hpp | 58 ++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 705a0c0..23ff7b7 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -517,24 +517,24 @@ namespace internal {
 
 template <class V>
 inline typename std::enable_if<std::is_floating_point<V>::value>::type set_real(
-    const double r, V &x) {
+    const long double r, V &x) {
   x = r;
 }
 
 template <class V>
 inline typename std::enable_if<!std::is_floating_point<V>::value>::type
-set_real(const double r, V &x) {
+set_real(const long double r, V &x) {
   // assume V is std::complex
   x.real(r);
 }
 
 template <class V>
 inline typename std::enable_if<std::is_floating_point<V>::value>::type set_imag(
-    const double, V &) {}
+    const long double, V &) {}
 
 template <class V>
 inline typename std::enable_if<!std::is_floating_point<V>::value>::type
-set_imag(const double i, V &x) {
+set_imag(const long double i, V &x) {
   // assume V is std::complex
   x.imag(i);
 }
@@ -557,6 +557,24 @@ class MmFileGuard {
   std::FILE *_f;  ///< file handle
 };
 
+/// \brief Type used for scanning values, \a double unless it is not sufficient
+template <class ValueType>
+using mm_scan_t = typename std::conditional<
+    std::is_same<typename ValueTypeTrait<ValueType>::value_type,
+                 long double>::value,
+    long double, double>::type;
+
+/// \brief Internal routine to scan a value
+template <bool IsReal>
+inline int mm_scan_value(std::FILE *f, double &r, double &i) {
+  return IsReal ? std::fscanf(f, "%lg", &r) : std::fscanf(f, "%lg %lg", &r, &i);
+}
+
+template <bool IsReal>
+inline int mm_scan_value(std::FILE *f, long double &r, long double &i) {
+  return IsReal ? std::fscanf(f, "%Lg", &r) : std::fscanf(f, "%Lg %Lg", &r, &i);
+}
+
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
 inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
@@ -587,11 +605,10 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
 
   std::size_t index(0);
   long long   r, c;
-  double      vr, vi;
+  mm_scan_t<ValueType> vr, vi;
   for (std::size_t i(0); i < nnz; ++i) {
-    const int flag =
-        IsReal ? std::fscanf(f, "%lld %lld %lg", &r, &c, &vr)
-               : std::fscanf(f, "%lld %lld %lg %lg", &r, &c, &vr, &vi);
+    int flag = std::fscanf(f, "%lld %lld", &r, &c);
+    if (flag == 2) flag += mm_scan_value<IsReal>(f, vr, vi);
     if (flag != 4 - IsReal) {
       hif_error("insufficient objects scanned from fscanf");
     }
@@ -628,10 +645,9 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
-  double vr, vi;
+  mm_scan_t<ValueType> vr, vi;
   for (std::size_t i(0); i < n; ++i) {
-    const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
-                            : std::fscanf(f, "%lg %lg", &vr, &vi);
+    const int flag = mm_scan_value<IsReal>(f, vr, vi);
     if (flag != 2 - IsReal) {
       hif_error("insufficient objects scanned from fscanf");
     }
@@ -844,11 +860,11 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
   // only for floating numbers
   static constexpr bool IS_REAL   = std::is_floating_point<ValueType>::value;
   static const char *   DATA_TYPE = IS_REAL ? "real" : "complex";
-  static constexpr int  PREC =
-      (IS_REAL && sizeof(ValueType) == sizeof(double)) ||
-              (!IS_REAL && sizeof(ValueType) == sizeof(std::complex<double>))
-          ? 16
-          : 8;
+  // digits after the first one that are needed to recover the values
+  static constexpr int PREC =
+      std::numeric_limits<
+          typename ValueTypeTrait<ValueType>::value_type>::max_digits10 -
+      1;
 
   std::ofstream f(filename);
   hif_error_if(!f.is_open(), "cannot open file %s", filename);
@@ -890,11 +906,11 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
                             const Array<ValueType> & vals) {
   static constexpr bool IS_REAL   = std::is_floating_point<ValueType>::value;
   static const char *   DATA_TYPE = IS_REAL ? "real" : "complex";
-  static constexpr int  PREC =
-      (IS_REAL && sizeof(ValueType) == sizeof(double)) ||
-              (!IS_REAL && sizeof(ValueType) == sizeof(std::complex<double>))
-          ? 16
-          : 8;
+  // digits after the first one that are needed to recover the values
+  static constexpr int PREC =
+      std::numeric_limits<
+          typename ValueTypeTrait<ValueType>::value_type>::max_digits10 -
+      1;
 
   if (ind_start.size() == 0u) hif_error("cannot write empty matrix");
   std::ofstream f(filename);
-- 
2.43.0


From 715816a8328e6548b2b94c64d8969a80355d45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 26/59] fix: announce the number of MatrixMarket entries that
 are written

---
 src/hif/utils/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 23ff7b7..63948fb 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -921,7 +921,8 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     << '.' << HIF_MINOR_VERSION << '\n';
   const std::size_t primary_size = ind_start.size() - 1;
   f << ' ' << (IsRowMajor ? primary_size : other_size) << ' '
-    << (IsRowMajor ? other_size : primary_size) << ' ' << vals.size() << '\n';
+    << (IsRowMajor ? other_size : primary_size) << ' '
+    << ind_start[primary_size] - ind_start[0] << '\n';
   f.setf(std::ios::scientific);
   f.precision(PREC);
   for (std::size_t i(0); i < primary_size; ++i) {
-- 
2.43.0


From df4b17b00a18c12187a5016bc51f74639771d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 27/59] fix: keep a matrix unchanged if reading it from a file
 fails

---
 src/hif/ds/CompressedStorage.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 9fa9397..dbc7bdc 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1576,9 +1576,12 @@ class CRS
     size_type   m, n;
     read_mm_sparse(fname, m, n, rows, cols, coovals);
     // convert to CRS
-    convert_coo2cs(m, n, rows, cols, coovals, row_start(), col_ind(), vals());
-    _psize = m;
-    _ncols = n;
+    CRS A;
+    convert_coo2cs(m, n, rows, cols, coovals, A.row_start(), A.col_ind(),
+                   A.vals());
+    A._psize = m;
+    A._ncols = n;
+    *this    = std::move(A);
   }
 
   /// \brief Write data to a MatrixMarket file
@@ -2484,9 +2487,12 @@ class CCS
     size_type   m, n;
     read_mm_sparse(fname, m, n, rows, cols, coovals);
     // convert to CCS
-    convert_coo2cs(n, m, cols, rows, coovals, col_start(), row_ind(), vals());
-    _psize = n;
-    _nrows = m;
+    CCS A;
+    convert_coo2cs(n, m, cols, rows, coovals, A.col_start(), A.row_ind(),
+                   A.vals());
+    A._psize = n;
+    A._nrows = m;
+    *this    = std::move(A);
   }
 
   /// \brief Write data to a MatrixMarket file
-- 
2.43.0


From 669326e01b5b498046f7e8d5490ac035f8127a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 28/59] fix: read MatrixMarket files of matrices without
 entries

---
 src/hif/utils/coo2compress.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..d61a690 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,10 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF, "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From 78caf297b08f7c74da6ab3d1d624776605c0b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 29/59] fix: do not return unread entries of symmetric
 MatrixMarket files

---
 src/hif/utils/io.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 63948fb..3ef9bea 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -633,11 +633,9 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
     ++index;
   }
   hif_error_if(std::ferror(f), "error while reading the file");
-  if (index != nnz) {
-    rows.resize(index);
-    cols.resize(index);
-    vals.resize(index);
-  }
+  rows.resize(index);
+  cols.resize(index);
+  vals.resize(index);
 }
 
 /// \brief Internal routine to read vector data
-- 
2.43.0


From fe3c977115330b3e0a26f8220a6321fc5a36b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 30/59] fix: number of nonzeros of a C matrix without arrays

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d7e9277..32d7664 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 735673a89c14921b0fa613f9179ce9f07713358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 31/59] fix: check the allocation in lhfcCreate

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 32d7664..6881bd6 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1053,6 +1053,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 812914d54b17b51e69283f3d8721a6c5ea6eed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 32/59] fix: report damaged files in lhfQueryMmFile instead of
 letting exceptions out

---
 libhifir/src/libhifir.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 6881bd6..6d1134b 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -274,19 +274,24 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   std::FILE *f = std::fopen(fname, "r");
   if (!f) return LHF_NULL_OBJ;
   const hif::internal::MmFileGuard guard(f);
-  bool is_sparse2, is_real2;
-  int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+  bool        is_sparse2, is_real2;
+  int         type_id;
+  std::size_t nrows2, ncols2, nnz2(0);
+  try {
+    // parse the first line
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, nrows2, ncols2, nnz2);
+    else
+      hif::internal::mm_read_dense_size(f, nrows2, ncols2);
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
+  }
   *is_sparse = is_sparse2;
   *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
-  }
+  *nrows     = nrows2;
+  *ncols     = ncols2;
+  *nnz       = nnz2;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From 87e047a588e7acd0ab453121a57c061702201ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 33/59] fix: lhfQueryMmFile tells enough space for reading
 symmetric storage

---
 libhifir/include/libhifir.h | 3 +++
 libhifir/src/libhifir.cpp   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libhifir/include/libhifir.h b/libhifir/include/libhifir.h
index c75ddde..70517c2 100644
--- a/libhifir/include/libhifir.h
+++ b/libhifir/include/libhifir.h
@@ -294,6 +294,9 @@ LhfStatus lhfSetKappa(const double kappa, double params[]);
  * @param[out] ncols Number of columns
  * @param[out] nnz Number of nonzeros
  *
+ * If the file uses symmetric, Hermitian, or skew-symmetric storage, then
+ * \a nnz is an upper bound of the number of nonzeros after reading the matrix.
+ *
  * If the file stores a dense array, then \a nrows stores the length of the
  * array, and both \a ncols and \a nnz are set to zero.
  *
diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 6d1134b..02942bd 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -291,7 +291,8 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   *is_real   = is_real2;
   *nrows     = nrows2;
   *ncols     = ncols2;
-  *nnz       = nnz2;
+  // only one triangle is stored unless general, but reading gives both
+  *nnz = type_id ? 2 * nnz2 : nnz2;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From 386f428a3537ed11ddbcab12ccb4b2e75bdb7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 34/59] fix: use the rank given to Apply of the C interface
 without refinement

---
 libhifir/src/libhifir.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 02942bd..d3888dc 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans, const int rank) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans, const int rank) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -463,9 +463,9 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -482,7 +482,7 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
 LhfStatus lhfdSolve(const LhfdHifHdl hif, const double *b, double *x) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
-    libhifir_impl::solve(*hif->M, b, x);
+    libhifir_impl::solve(*hif->M, b, x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
@@ -684,9 +684,9 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -703,7 +703,7 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
 LhfStatus lhfsSolve(const LhfsHifHdl hif, const float *b, float *x) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
-    libhifir_impl::solve(*hif->M, b, x);
+    libhifir_impl::solve(*hif->M, b, x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
@@ -906,10 +906,10 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -929,7 +929,7 @@ LhfStatus lhfzSolve(const LhfzHifHdl hif, const double _Complex *b,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
     libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                         (std::complex<double> *)x);
+                         (std::complex<double> *)x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
@@ -1133,10 +1133,10 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1156,7 +1156,7 @@ LhfStatus lhfcSolve(const LhfcHifHdl hif, const float _Complex *b,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
     libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                         (std::complex<float> *)x);
+                         (std::complex<float> *)x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
@@ -1215,9 +1215,9 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1235,7 +1235,7 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
 LhfStatus lhfsdSolve(const LhfsHifHdl hif, const double *b, double *x) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
-    libhifir_impl::solve(*hif->M, b, x);
+    libhifir_impl::solve(*hif->M, b, x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
@@ -1266,10 +1266,10 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
@@ -1290,7 +1290,7 @@ LhfStatus lhfczSolve(const LhfcHifHdl hif, const double _Complex *b,
   _LHF_CANNOT_ACCEPT_NULL(hif);
   try {
     libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                         (std::complex<double> *)x);
+                         (std::complex<double> *)x, false, 0);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-- 
2.43.0


From f5279d567b4cc81f4afec61f725e07d5b5789692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 35/59] fix: keep and return error messages of the C interface
 without further memory

---
 libhifir/src/libhifir.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d3888dc..8b1af0a 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -42,7 +42,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _LHF_CANNOT_ACCEPT_NULL(__obj) \
   if (!(__obj)) return LHF_NULL_OBJ
 
-#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::error_msgs[1] = __e.what()
+#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::set_error_msg(__e.what())
 
 #define _LHF_RETURN_FROM_HIFIR_ERROR(__e) \
   _LHF_SET_HIFIR_ERROR(__e);              \
@@ -52,6 +52,19 @@ namespace libhifir_impl {
 // handle internal C++ HIFIR errors
 static std::string error_msgs[2];
 
+// keep a message, also if there is no memory left for it
+static inline void set_error_msg(const char *msg) {
+  try {
+    error_msgs[1] = msg;
+  } catch (const std::exception &) {
+    // fits into the object
+    try {
+      error_msgs[1] = "out of memory";
+    } catch (const std::exception &) {
+    }
+  }
+}
+
 // get factorization result statistics
 template <class PrecType>
 static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
@@ -222,7 +235,7 @@ void lhfGetVersions(int versions[]) {
 
 // error message
 const char *lhfGetErrorMsg() {
-  libhifir_impl::error_msgs[0] = libhifir_impl::error_msgs[1];
+  libhifir_impl::error_msgs[0].swap(libhifir_impl::error_msgs[1]);
   libhifir_impl::error_msgs[1].clear();
   if (libhifir_impl::error_msgs[0].empty()) return NULL;
   return libhifir_impl::error_msgs[0].c_str();
-- 
2.43.0


From 3380b152ae7abb6f9410df2501869360eaaa6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 36/59] fix: error messages of concurrent callers of the C
 interface

---
 libhifir/src/libhifir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 8b1af0a..2fb546f 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -49,8 +49,8 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
   return LHF_HIFIR_ERROR
 
 namespace libhifir_impl {
-// handle internal C++ HIFIR errors
-static std::string error_msgs[2];
+// handle internal C++ HIFIR errors, each thread has its own
+static thread_local std::string error_msgs[2];
 
 // keep a message, also if there is no memory left for it
 static inline void set_error_msg(const char *msg) {
-- 
2.43.0


From 8ebf51283a2cefd057278fca2f20b2aaeb2f6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 37/59] fix: leave an empty preconditioner if the input arrays
 cannot be wrapped

---
 src/hif/builder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 510dfe7..c8e0897 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -411,6 +411,8 @@ class HIF {
     using foreign_ccs_type = typename foreign_crs_type::other_type;
     using foreign_cs_type  = typename std::conditional<IsCrs, foreign_crs_type,
                                                       foreign_ccs_type>::type;
+    // wrapping may fail, then no outdated factorization should be left behind
+    _reset();
     const foreign_cs_type A(n, (IndPtrType_ *)indptr, (IndexType_ *)indices,
                             (ValueType_ *)vals, true);
     factorize(A, params, m0);
-- 
2.43.0


From ec552b94201087fa76b09aa39959aa2a3c51be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 38/59] fix: failed allocations inside of a new preconditioner
 of the C interface

---
 libhifir/src/libhifir.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 2fb546f..b451a6c 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -83,6 +83,17 @@ static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
   }
 }
 
+// create a preconditioner, null if there is no memory for it
+template <class PrecType>
+static inline PrecType *create_prec() {
+  try {
+    return new PrecType();
+  } catch (const std::exception &e) {
+    _LHF_SET_HIFIR_ERROR(e);
+  }
+  return nullptr;
+}
+
 // create parameters from C parameter array
 static inline hif::Params create_params(const double params[]) {
   hif::Params p   = hif::get_default_params();
@@ -404,7 +415,7 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
                       const double params[]) {
   LhfdHifHdl M = (LhfdHifHdl)std::malloc(sizeof(LhfdHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<double, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_prec<hif::HIF<double, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -624,7 +635,7 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
                       const double params[]) {
   LhfsHifHdl M = (LhfsHifHdl)std::malloc(sizeof(LhfsHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<float, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_prec<hif::HIF<float, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -845,7 +856,7 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
                       const double params[]) {
   LhfzHifHdl M = (LhfzHifHdl)std::malloc(sizeof(LhfzHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_prec<hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -1071,7 +1082,7 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
                       const double params[]) {
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  M->M = libhifir_impl::create_prec<hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>>();
   if (!M->M) {
     std::free(M);
     return nullptr;
-- 
2.43.0


From 1673fb66a69efa0a1ac5de8e9a991e2cc3f67877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 39/59] fix: empty matrices in Setup and Apply of the C
 interface

---
 libhifir/src/libhifir.cpp | 1 +
 src/hif/builder.hpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index b451a6c..742b2e4 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -199,6 +199,7 @@ static inline void hifir(const PrecType &M, const MatHdlType A,
                          ValueType *x, int *ir_status) {
   using array_t = hif::Array<ValueType>;
 
+  hif_error_if(!A->indptr, "the matrix is empty");
   array_t bb(A->n, (ValueType *)b, true);
   array_t xx(A->n, (ValueType *)x, true);
   if (!betas) {
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index c8e0897..7e33819 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -413,6 +413,7 @@ class HIF {
                                                       foreign_ccs_type>::type;
     // wrapping may fail, then no outdated factorization should be left behind
     _reset();
+    hif_error_if(!indptr, "no index starting positions");
     const foreign_cs_type A(n, (IndPtrType_ *)indptr, (IndexType_ *)indices,
                             (ValueType_ *)vals, true);
     factorize(A, params, m0);
-- 
2.43.0


From e71d0e20c770f5a1b62c14bd5216224a4b9f64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 40/59] fix: let no exception out of the file readers of the C
 interface

---
 libhifir/src/libhifir.cpp | 52 ++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 742b2e4..67e8927 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -123,28 +123,28 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A = matrix_t::from_mm(fname);
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   } else {
     using matrix_t = hif::CCS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A = matrix_t::from_mm(fname);
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   }
   return LHF_SUCCESS;
 }
@@ -394,14 +394,13 @@ LhfStatus lhfdReadSparse(const char *fname, LhfdMatrixHdl mat) {
 // double vector mm io
 LhfStatus lhfdReadVector(const char *fname, const size_t n, double *v) {
   using vector_t = hif::Array<double>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -613,14 +612,13 @@ LhfStatus lhfsReadSparse(const char *fname, LhfsMatrixHdl mat) {
 // single vector mm io
 LhfStatus lhfsReadVector(const char *fname, const size_t n, float *v) {
   using vector_t = hif::Array<float>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -835,14 +833,13 @@ LhfStatus lhfzReadSparse(const char *fname, LhfzMatrixHdl mat) {
 LhfStatus lhfzReadVector(const char *fname, const size_t n,
                          double _Complex *v) {
   using vector_t = hif::Array<std::complex<double>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   return LHF_SUCCESS;
 }
 
@@ -1060,14 +1057,13 @@ LhfStatus lhfcReadSparse(const char *fname, LhfcMatrixHdl mat) {
 // double complex vector mm io
 LhfStatus lhfcReadVector(const char *fname, const size_t n, float _Complex *v) {
   using vector_t = hif::Array<std::complex<float>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From b98f25a58d7c1544ec23031cc95a15488a0b389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 41/59] fix: RCM reordering of a matrix wrongly claimed to be
 symmetric

---
 src/hif/pre/reordering.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hif/pre/reordering.hpp b/src/hif/pre/reordering.hpp
index 27a0096..461dc39 100644
--- a/src/hif/pre/reordering.hpp
+++ b/src/hif/pre/reordering.hpp
@@ -29,6 +29,8 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #ifndef _HIF_PRE_REORDERING_HPP
 #define _HIF_PRE_REORDERING_HPP
 
+#include <algorithm>
+
 #include "hif/pre/amd.hpp"
 #include "hif/pre/rcm.hpp"
 
@@ -116,7 +118,16 @@ inline typename CcsType::iparray_type run_rcm(const CcsType &B,
   using rcm_type     = rcm::RCM<indptr_type>;
 
   if (hif_verbose(PRE, opt)) hif_info("begin running RCM reordering...");
-  const auto   n = B.nrows();
+  const auto n = B.nrows();
+  // NOTE the graph is not symmetric if a matrix is wrongly claimed to be so,
+  // and RCM cannot find its way in such graphs
+  using size_type = typename CcsType::size_type;
+  for (size_type i(0); i < n; ++i)
+    for (auto itr = B.row_ind_cbegin(i), last = B.row_ind_cend(i); itr != last;
+         ++itr)
+      hif_error_if(!std::binary_search(B.row_ind_cbegin(*itr),
+                                       B.row_ind_cend(*itr), (size_type)i),
+                   "RCM requires a symmetric pattern");
   iparray_type adjncy;
   if (sizeof(indptr_type) == sizeof(typename CcsType::index_type))
     adjncy = wrap_array(B.row_ind().size(), (indptr_type *)B.row_ind().data());
-- 
2.43.0


From b050a64baa49ee64442f883485c85f516b6eca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 42/59] fix: check every column when wrapping constant
 column-major data

The loop ran over the number of rows: columns beyond it were not checked, and
the start array was read past its end if there were fewer columns than rows.
---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index dbc7bdc..e60b420 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2693,10 +2693,10 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+    for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
-        hif_warning("row %zd is empty!", i);
+        hif_warning("column %zd is empty!", i);
 #endif
         continue;
       }
-- 
2.43.0


From f52c439d0c00f8c763ee580d350e46b701b0b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 43/59] fix: leading block without entries

extract_leading reported a failed allocation and left the positions in the
source matrix as start array if the block had no entries.
---
 src/hif/ds/CompressedStorage.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index e60b420..6246110 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -622,20 +622,17 @@ class CompressedStorage {
     indptr.front() = 0;
     size_type nz(0);
     for (size_type i(0); i < m; ++i) {
-      auto last     = find_sorted(ind_cbegin(i), ind_cend(i), m).second;
-      indptr[i + 1] = last - _indices.cbegin();
+      auto last = find_sorted(ind_cbegin(i), ind_cend(i), m).second;
       nz += (last - ind_cbegin(i));
+      indptr[i + 1] = nz;
     }
     indices.resize(nz);
+    // NOTE that the block may have no entries
     if (nz) {
       hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
-      indptr.front() = 0;
-      auto itr       = indices.begin();
-      for (size_type i(0); i < m; ++i) {
-        auto last     = _indices.cbegin() + indptr[i + 1];
-        itr           = std::copy(ind_cbegin(i), last, itr);
-        indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
-      }
+      auto itr = indices.begin();
+      for (size_type i(0); i < m; ++i)
+        itr = std::copy_n(ind_cbegin(i), indptr[i + 1] - indptr[i], itr);
     }
   }
 
@@ -648,6 +645,7 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
+    if (!indices.size()) return;
     hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
-- 
2.43.0


From b4087084d8adea2976bc10333777e730d82bc22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 44/59] fix: permuting a matrix without columns reported a
 failed allocation

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 6246110..6e95643 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -564,7 +564,7 @@ class CompressedStorage {
     const size_type psize = OnlyLeading ? leading : m;
     if (DoValue) {
       buf.resize(OnlyLeading ? leading : n);
-      hif_error_if(buf.status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if(buf.size() && buf.status() == DATA_UNDEF, "memory allocation failed");
     }
     indptr.resize(psize + 1);
     hif_error_if(indptr.status() == DATA_UNDEF, "memory allocation failed");
-- 
2.43.0


From f98443da02be165152dd5c39e7f9e274d9396bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 45/59] fix: prune thresholds

The threshold was multiplied into the running maximum of a column (row) once
per entry, so that the result depended on the order of the entries and was not
the documented one.
---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 6e95643..4c19d21 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -680,10 +680,11 @@ class CompressedStorage {
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
+      std::fill(buf.begin(), buf.end(), scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
+      for (auto &v : buf) v *= eps;
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
-- 
2.43.0


From 3e611bc6293b290b24edca62d870d711d9599fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 46/59] fix: a failed allocation left a half destroyed matrix

---
 src/hif/ds/CompressedStorage.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 4c19d21..f680f25 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -654,9 +654,13 @@ class CompressedStorage {
 
   /// \brief destroy the memory explicitly
   inline void _destroy() {
-    iparray_type().swap(_ind_start);
-    iarray_type().swap(_indices);
-    array_type().swap(_vals);
+    // create all the empty arrays first, so that a failure leaves a valid matrix
+    iparray_type ind_start;
+    iarray_type  indices;
+    array_type   vals;
+    ind_start.swap(_ind_start);
+    indices.swap(_indices);
+    vals.swap(_vals);
     _psize = 0;
   }
 
-- 
2.43.0


From 5c15650e95adc11a0b8bbf4bbf1b94e012072e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 47/59] fix: transposed lower solves with several right-hand
 sides skipped entries

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index f680f25..143c499 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1439,7 +1439,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2353,7 +2353,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From 0c4008aaac2c36498eefe076c8046f9bc44194e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 48/59] fix: transposed products with several right-hand sides
 did not conjugate

The products with one right-hand side and all triangular solves do.
---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 143c499..7b64cf7 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1312,7 +1312,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2224,7 +2225,7 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
+        const auto av = conjugate(*v_itr);
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
-- 
2.43.0


From 97686a4e5f5ed4ca97385bbf9f210b5f4bb6e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 49/59] fix: products with an empty operand left the result
 unset

The transposed product of a matrix without rows (row storage) and all products
with several right-hand sides returned early instead of storing zeros.
---
 src/hif/ds/CompressedStorage.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 7b64cf7..2ccfdcc 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1226,6 +1226,8 @@ class CRS
                  "matrix vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1248,6 +1250,8 @@ class CRS
                  "out-of-bound pass-of-end range detected");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1262,8 +1266,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1302,8 +1306,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
@@ -1331,6 +1335,8 @@ class CRS
                  "T(matrix) vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication
@@ -2163,6 +2169,8 @@ class CCS
                  "matrix vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2245,6 +2253,8 @@ class CCS
                  "T(matrix) vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 447bb0309b550f663c54425ff514c438ea67a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 50/59] fix: nnz of a clone of an empty matrix read out of
 bounds

---
 src/hif/ds/CompressedStorage.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 2ccfdcc..43005d0 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -133,7 +133,10 @@ class CompressedStorage {
   /// \note The status should be consistent for all three arrays.
   inline unsigned char status() const { return _indices.status(); }
   inline size_type     nnz() const {
-    return status() == DATA_UNDEF ? 0 : _ind_start.back() - _ind_start.front();
+    // NOTE a clone of an empty matrix owns empty arrays
+    return status() == DATA_UNDEF || _ind_start.empty()
+               ? 0
+               : _ind_start.back() - _ind_start.front();
   }
 
   // getting information for local value ranges
-- 
2.43.0


From 6122af167170d35a5959db19278308418b7383ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:38 +0000
Subject: [PATCH 51/59] fix: make the symmetric kernel work for complex
 Hermitian systems

The Crout update, the transposed copy of the input and the upper offset were
built without conjugation while the upper factor was conjugated, so a complex
Hermitian system was factorized into something else.
---
 src/hif/alg/Crout.hpp       | 6 +++---
 src/hif/alg/symm_factor.hpp | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..3ac1d83 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -379,9 +379,9 @@ class Crout {
         hif_assert((size_type)L_col < _step,
                    "compute_ut row index %zd should not exceed step %zd for U",
                    (size_type)L_col, _step);
-        // compute d*L^T
+        // compute d*L^H
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
@@ -625,7 +625,7 @@ class Crout {
                  "ut should only contain the upper part, "
                  "(idx,step(defer))=(%zd,%zd(%zd))!",
                  idx, _step, _defers);
-      if (idx < m) d[idx] -= dk * ut.val(i) * ut.val(i);
+      if (idx < m) d[idx] -= dk * ut.val(i) * conjugate(ut.val(i));
     }
   }
 
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 7bd799c..4c14d75 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -152,9 +152,9 @@ inline CsType symm_level_factorize(
 
   // build counterpart type
   other_type A_counterpart;
-  // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  // NOTE: This can be done efficiently for symmetric real
+  // and complex Hermitian systems
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -623,12 +623,13 @@ inline CsType symm_level_factorize(
     A_counterpart.destroy();
   }
 
-  // construct F differently for symmetric real systems
+  // construct F differently for symmetric (Hermitian) systems
   crs_type F_ccs(E);
   F.resize(E.ncols(), E.nrows());
   F.inds()      = F_ccs.inds();
   F.ind_start() = F_ccs.ind_start();
   F.vals()      = F_ccs.vals();
+  for (auto &v : F.vals()) v = conjugate(v);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From 3af4fec3c40ca5514eabc20cb87b7416b2cbf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:38 +0000
Subject: [PATCH 52/59] fix: export empty factors without a starting position
 array

---
 src/hif/ds/CompressedStorage.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 43005d0..dffacaa 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2749,7 +2749,12 @@ inline void export_compressed_data(const CSCopiedType &             A,
                                    typename ExportCSType::pointer   vals) {
   // if export is same as copied, then this is shallow copy
   const ExportCSType AA(A);
-  std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  // NOTE that an empty matrix may have no starting position array at all
+  if (AA.ind_start().size())
+    std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  else
+    std::fill_n(ind_start, AA.primary_size() + 1,
+                typename ExportCSType::indptr_type(0));
   std::copy_n(AA.inds().cbegin(), AA.nnz(), indices);
   std::copy_n(AA.vals().cbegin(), AA.nnz(), vals);
 }
-- 
2.43.0


From a9eb5710150132df9f1afd1cf454a2a250aa057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 53/59] fix: start arrays of another integer width were
 reinterpreted

---
 src/hif/builder.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 7e33819..91ac0d8 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -273,9 +273,6 @@ class HIF {
 
     static_assert(sizeof(index_type) == sizeof(typename CsType::index_type),
                   "inconsistent index types");
-    static_assert(
-        sizeof(index_type) == sizeof(typename CsType::index_type),
-        "inconsistent indptr types");
 
     // if the factorization stops with an error, then leave an empty object instead
     // of a partially built (or an outdated) one
@@ -327,12 +324,21 @@ class HIF {
       nz = A.ind_start()[psize] - A.ind_start()[0];
       hif_error_if(nz > A.inds().size() || nz > A.vals().size(),
                    "invalid length of the indices or values");
-      if (A.ind_start()[0] == indptr_type(0)) {
+      hif_error_if(nz >= size_type(std::numeric_limits<indptr_type>::max()),
+                   "too many nonzeros for the index pointer type");
+      if (A.ind_start()[0] == 0) {
         // 0-based, shallow copy
-        AA.ind_start() = iparray_type(
-            psize + 1u, (indptr_type *)A.ind_start().data(), true);
+        if (sizeof(indptr_type) == sizeof(typename CsType::indptr_type))
+          AA.ind_start() = iparray_type(
+              psize + 1u, (indptr_type *)A.ind_start().data(), true);
+        else {
+          // NOTE the start array can be of another integer type
+          AA.ind_start().resize(psize + 1u);
+          std::copy_n(A.ind_start().cbegin(), psize + 1u,
+                      AA.ind_start().begin());
+        }
         AA.inds() = iarray_type(nz, (index_type *)A.inds().data(), true);
-      } else if (A.ind_start()[0] == indptr_type(1)) {
+      } else if (A.ind_start()[0] == 1) {
         // 1-based
         if (hif_verbose(INFO, params))
           hif_info("converting to 0-based compressed matrix...");
-- 
2.43.0


From e302878c63bf0f2dbd0e2d9b08aef66b3875dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 54/59] fix: failures while printing the introduction ended the
 process in OpenMP builds

---
 src/hif/builder.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 91ac0d8..c9bbbba 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -285,15 +285,13 @@ class HIF {
 
     // print introduction
     if (hif_verbose(INFO, params)) {
-      if (!internal::introduced) {
-#pragma omp master
-        do {
-          // for better interact with other systems (e.g., MATLAB), only
-          // print out the intro on thread=0
-          hif_info(internal::intro, HIF_GLOBAL_VERSION, HIF_MAJOR_VERSION,
-                   HIF_MINOR_VERSION);
-          internal::introduced = true;
-        } while (false);
+      // for better interact with other systems (e.g., MATLAB), only
+      // print out the intro on thread=0
+      // NOTE not in an OpenMP master block, which exceptions cannot leave
+      if (!internal::introduced && mt::get_thread() == 0) {
+        hif_info(internal::intro, HIF_GLOBAL_VERSION, HIF_MAJOR_VERSION,
+                 HIF_MINOR_VERSION);
+        internal::introduced = true;
       }
     }
 
-- 
2.43.0


From f3b3a36436715bd7f606060b0d0046ae438d4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 55/59] fix: symmetric leading blocks were assembled wrongly
 without space dropping

---
 src/hif/alg/factor.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index cae84d4..861358c 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -956,16 +956,13 @@ inline CsType level_factorize(
     apply_num_dropping(tau_L, std::abs(k_l) * kappa_d, l);
 
     if (IsSymm) {
-#ifndef HIF_DISABLE_SPACE_DROP
       // for symmetric cases, we need first find the leading block size
       auto info =
           find_sorted(ut.inds().cbegin(), ut.inds().cbegin() + ut.size(), m2);
+      auto u_last = info.second;
+#ifndef HIF_DISABLE_SPACE_DROP
       apply_space_dropping(col_sizes[q[step]], alpha_L, l,
                            info.second - ut.inds().cbegin());
-
-      auto u_last = info.second;
-#else   // !HIF_DISABLE_SPACE_DROP
-      auto u_last = ut.inds().cbegin() + ut.size();
 #endif  // HIF_DISABLE_SPACE_DROP
 
       l.sort_indices();
-- 
2.43.0


From 028d46d4cd18b4a78b4cbfa971223668befb555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:18 +0000
Subject: [PATCH 56/59] fix: the thresholds of L and U were exchanged

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 861358c..cdfd9e1 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From 14561707a4229f713e999b384b36fb244d6fbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:44 +0000
Subject: [PATCH 57/59] fix: symmetric leading blocks of complex systems must
 not be conjugated

The symmetric kernel (Hermitian systems) and the symmetric leading block
(L is the plain transpose of U there) shared one diagonal update.
---
 src/hif/alg/Crout.hpp       | 23 ++++++++++++++++++++++-
 src/hif/alg/symm_factor.hpp |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index 3ac1d83..9374ce3 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -625,7 +625,28 @@ class Crout {
                  "ut should only contain the upper part, "
                  "(idx,step(defer))=(%zd,%zd(%zd))!",
                  idx, _step, _defers);
-      if (idx < m) d[idx] -= dk * ut.val(i) * conjugate(ut.val(i));
+      if (idx < m) d[idx] -= dk * ut.val(i) * ut.val(i);
+    }
+  }
+
+  /// \brief update the diagonal entries, Hermitian (real symmetric) systems
+  /// \tparam SpVecType sparse vector for storing l, see \ref SparseVector
+  /// \tparam DiagType diagonal vector array type, see \ref Array
+  /// \param[in] l newly computed column vector of L, scaled by the diagonal
+  /// \param[in] m leading block size
+  /// \param[in,out] d diagonal vector
+  template <class SpVecType, class DiagType>
+  inline void update_diag_herm(const SpVecType &l, const size_type m,
+                               DiagType &d) const {
+    const auto      dk = d[_step];
+    const size_type n  = l.size();
+    for (size_type i(0); i < n; ++i) {
+      const size_type idx = l.idx(i);
+      hif_assert(idx > deferred_step(),
+                 "l should only contain the lower part, "
+                 "(idx,step(defer))=(%zd,%zd(%zd))!",
+                 idx, _step, _defers);
+      if (idx < m) d[idx] -= dk * l.val(i) * conjugate(l.val(i));
     }
   }
 
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 4c14d75..f743592 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -396,7 +396,7 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    step.update_diag_herm(l, m2, d);
 
     //---------------
     // drop and sort
-- 
2.43.0


From fa0525027ae3418c016a1792f4fbfa2f03f2167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 58/59] fix: iterative pre-scaling of empty rows and columns
 made NaNs

pre_scale=2 divided by the square root of the largest entry also where it is
zero; the matching then refused the matrix.
---
 src/hif/pre/a_priori_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..2b0be7b 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,12 +199,14 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // NOTE nothing to scale in empty rows, dividing by zero makes NaNs
+      local_rs[p[row]] = tmp != scalar_type(0) ? 1. / std::sqrt(tmp) : 1.;
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
+        const scalar_type tmp =
+            local_cs[i] != scalar_type(0) ? 1. / std::sqrt(local_cs[i]) : 1.;
         local_cs[i]    = tmp;
         cs[i] *= tmp;
       }
-- 
2.43.0


From 0f9c603d756a9271f8e2513b39c0b6f1dc67bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:06 +0000
Subject: [PATCH 59/59] fix: stored zeros made the matching scale by infinity

MC64 took explicitly stored zeros for entries; where a perfect matching
needed them, the scaling vectors became infinite and the factorization
full of NaNs. They are left out of the matching.
---
 src/hif/pre/EqlDriver.hpp | 47 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..8d2d615 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -92,9 +92,25 @@ class EqlDriver {
       }
       // deal with scaling and matching
       kernel_type eq;
-      const int   info =
-          eq.compute(n, nnz, B.row_start().data(), B.col_ind().data(),
-                     B.vals().data(), p.data());
+      int         info;
+      // NOTE stored zeros are entries to MC64; if it cannot avoid them, then
+      // the scaling overflows, thus they are left out
+      const size_type nz = nnz - std::count(B.vals().cbegin(),
+                                            B.vals().cbegin() + nnz,
+                                            value_type(0));
+      if (nz == nnz)
+        info = eq.compute(n, nnz, B.row_start().data(), B.col_ind().data(),
+                          B.vals().data(), p.data());
+      else if (nz) {
+        crs_type Bnz;
+        drop_zeros(B, nz, Bnz);
+        info = eq.compute(n, nz, Bnz.row_start().data(), Bnz.col_ind().data(),
+                          Bnz.vals().data(), p.data());
+      } else {
+        // nothing to match or scale
+        for (size_type i(0); i < n; ++i) p[i] = q[i] = i;
+        return;
+      }
 
       if (info < 0) {
         hif_error(
@@ -130,6 +146,31 @@ class EqlDriver {
     } else
       for (size_type i(0); i < n; ++i) q[i] = i;
   }
+
+ protected:
+  /// \brief copy a (Fortran-based) matrix without its stored zeros
+  /// \param[in] B input matrix
+  /// \param[in] nz number of nonzero values in \a B
+  /// \param[out] Bnz copy of \a B without the zeros
+  inline static void drop_zeros(const crs_type &B, const size_type nz,
+                                crs_type &Bnz) {
+    const size_type n = B.nrows();
+    Bnz.resize(n, n);
+    Bnz.row_start().resize(n + 1);
+    Bnz.col_ind().resize(nz);
+    Bnz.vals().resize(nz);
+    Bnz.row_start()[0] = 1;
+    size_type k(0);
+    for (size_type i(0); i < n; ++i) {
+      for (indptr_type j(B.row_start()[i] - 1); j < B.row_start()[i + 1] - 1;
+           ++j)
+        if (B.vals()[j] != value_type(0)) {
+          Bnz.col_ind()[k] = B.col_ind()[j];
+          Bnz.vals()[k++]  = B.vals()[j];
+        }
+      Bnz.row_start()[i + 1] = k + 1;
+    }
+  }
 };
 
 }  // namespace hif
-- 
2.43.0

