From 89b5c939cff0c602257ccfb27e688fcdec3d14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 001/208] fix: Array::Append of an element of the array itself
 read freed memory when growing

---
 il/container/1d/Array.h | 55 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..a0a4ba9 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -265,6 +265,13 @@ class Array {
    */
   void IncreaseCapacity(il::int_t r);
 
+  /* \brief Used internally to increase the capacity of the array and construct
+  // one element past the end, which is done before the old elements are
+  // relocated as args might refer to one of them
+  */
+  template <typename... Args>
+  void IncreaseCapacityAppend(il::int_t r, Args&&... args);
+
   /* \brief Used internally in debug mode to check the invariance of the object
    */
   bool invariance() const;
@@ -833,13 +840,10 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
+    IncreaseCapacityAppend(new_capacity, std::move(x));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -855,9 +859,10 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    IncreaseCapacityAppend(new_capacity, std::forward<Args>(args)...);
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
@@ -966,6 +971,38 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
   shift_ = static_cast<short>(new_shift);
 }
 
+template <typename T>
+template <typename... Args>
+void Array<T>::IncreaseCapacityAppend(il::int_t r, Args&&... args) {
+  IL_EXPECT_FAST(capacity() < r);
+
+  const il::int_t n = size();
+  T* new_data;
+  il::int_t new_shift;
+  if (alignment_ == 0) {
+    new_data = il::allocateArray<T>(r);
+    new_shift = 0;
+  } else {
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+  }
+  new (new_data + n) T(std::forward<Args>(args)...);
+  if (data_) {
+    if (il::isTrivial<T>::value) {
+      memcpy(new_data, data_, n * sizeof(T));
+    } else {
+      for (il::int_t i = n - 1; i >= 0; --i) {
+        new (new_data + i) T(std::move(data_[i]));
+        (data_ + i)->~T();
+      }
+    }
+    il::deallocate(data_ - shift_);
+  }
+  data_ = new_data;
+  size_ = data_ + n;
+  capacity_ = data_ + r;
+  shift_ = static_cast<short>(new_shift);
+}
+
 template <typename T>
 bool Array<T>::invariance() const {
   bool ans = true;
-- 
2.43.0


From f411b1f9884a9eb1554994f303671bedcf533228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 002/208] fix: Array::Resize filling with an element of the
 array itself read freed memory

---
 il/container/1d/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index a0a4ba9..93f93f3 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -747,14 +747,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy(x);
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{x_copy};
       }
     }
   }
-- 
2.43.0


From e2e8e1ad0da31e5810944025b9fd888b738d93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 003/208] fix: Array::Set assigned to the unconstructed
 elements beyond the size

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 93f93f3..9147289 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -667,7 +667,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From 62edf226fa38fcb6354e50e2c6c772b1020f1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 004/208] fix: Array copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/1d/Array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 9147289..d92ce1a 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -592,10 +592,14 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_old = size();
+      for (il::int_t i = 0; i < (n < n_old ? n : n_old); ++i) {
         data_[i] = v.data_[i];
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
+      }
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
     }
-- 
2.43.0


From a43b69eb370c408fcc3843816af3296e99632ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 005/208] fix: an aligned array constructed empty violated its
 own invariant and aborted when destroyed

---
 il/container/2d/Array2C.h | 12 ++++++------
 il/container/2d/Array2D.h | 12 ++++++------
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..91bc07a 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -354,9 +354,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
@@ -462,9 +462,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..f73d3ff 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -369,9 +369,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
@@ -510,9 +510,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..ae29d9b 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -384,9 +384,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
@@ -508,9 +508,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..cc61d1d 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -378,9 +378,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
@@ -504,9 +504,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : static_cast<short>(0);
+  align_r_ = r > 0 ? static_cast<short>(align_r) : static_cast<short>(0);
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : static_cast<short>(0);
 }
 
 template <typename T>
-- 
2.43.0


From 09dfc1dcb4961e145806ea6cb0800007be41644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 006/208] fix: Array2D::Resize filling with an element of the
 array itself read freed memory

---
 il/container/2d/Array2D.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index f73d3ff..3aeb3fb 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -973,6 +973,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
   const il::int_t n1_old = size(1);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
   if (need_memory) {
+    const T x_copy(x);
     il::int_t r0;
     il::int_t r1;
     if (n0 > 0 && n1 > 0) {
@@ -1020,7 +1021,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new_data[i1 * r0 + i0] = x_copy;
         }
       }
     } else {
@@ -1043,7 +1044,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
+          new (new_data + i1 * r0 + i0) T{x_copy};
         }
       }
     }
-- 
2.43.0


From a0222196ddd6affa58c1530867006b6f123b08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 007/208] fix: Array2D copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/2d/Array2D.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 3aeb3fb..17b0e9e 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,11 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] = A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
-- 
2.43.0


From f54c10b7f65fa74975310a141095771e4db5ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 008/208] fix: Array2C copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/2d/Array2C.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 91bc07a..9798a16 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,11 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] = A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
-- 
2.43.0


From f0ff768418ec90a015e8f20cfacfa9c142dca29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 009/208] fix: Array3D copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/3d/Array3D.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index cc61d1d..62a3dd5 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,11 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T(A(i0, i1, i2));
+              }
             }
           }
         }
-- 
2.43.0


From 4cce63ff7162724c18c33ca7ac4e8474491ec639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 010/208] fix: Array3C copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/3d/Array3C.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index ae29d9b..566d8c4 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,11 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T(A(i0, i1, i2));
+              }
             }
           }
         }
-- 
2.43.0


From df870dde30dab7ee05442316fa6f7079a9505e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 011/208] fix: Array4D copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/4d/Array4D.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..888c5e6 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,11 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  data_[((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2, i3);
+                } else {
+                  new (data_ + ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From ab245f7bffd4215ecd5a387ebbef0cf026acdf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 012/208] fix: Array4C copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/4d/Array4C.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..bcdd10e 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,11 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  data_[((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i3] = A(i0, i1, i2, i3);
+                } else {
+                  new (data_ + ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i3) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From 5dbadebca2b5cc01f6c6e4ac68d3519ea5ea4f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 013/208] fix: Array3C copy assignment within the capacity
 destroyed the wrong elements

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 566d8c4..880ff1b 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -822,7 +822,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
-- 
2.43.0


From 1147f1364e695af92c0ae108ad0628d654a17657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 014/208] fix: Array2C copy constructor rounded the stride with
 its own uninitialised alignment

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 9798a16..715648f 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -548,7 +548,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From d963ce7fa875ae351383cb748f5c5a1b6d89fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 015/208] fix: Array3C::Resize within the capacity
 default-filled the wrong range

---
 il/container/3d/Array3C.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 880ff1b..0bc3c7c 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1039,7 +1039,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
@@ -1058,12 +1058,12 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0; i2 < n2;
-             ++i2) {
-          new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
+               i2 < n2; ++i2) {
+            new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+          }
         }
       }
     }
-- 
2.43.0


From 2bc07d418587ea5ac8f62ffa2249b2fb73a540ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 016/208] fix: an aligned Array growing its capacity allocated
 room for its size only

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index d92ce1a..521fe4a 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -957,7 +957,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From 7ac34444ff34c0c96ae3c100b5308686f296db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 017/208] fix: aligned Array3D built with a value was left
 uninitialised in release builds

---
 il/container/3d/Array3D.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 62a3dd5..aa93009 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From c9d331073952e680870ef49d58ab6240b8e3ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 018/208] fix: aligned Array3C built with a value was left
 uninitialised in release builds

---
 il/container/3d/Array3C.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 0bc3c7c..6ee43df 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From abc6ca288df68db68477a31dc7997637b9de000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 019/208] fix: SmallArray move assignment reset the destination
 instead of the source and destroyed what it had built

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From b33c8023008c5f9aee9c025a08a0bb8e3aed5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 020/208] fix: SmallArray::Resize within the capacity destroyed
 the elements it keeps

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..a514866 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 68dc83e9f1af15e5328a390ca399ed60a75f2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 021/208] fix: SmallArray copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/1d/SmallArray.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index a514866..e374d6c 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -367,13 +367,19 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = data_ + n;
       capacity_ = data_ + n;
     } else {
-      if (!il::isTrivial<T>::value) {
-        for (il::int_t i = size() - 1; i >= n; --i) {
+      if (il::isTrivial<T>::value) {
+        memcpy(data_, A.data_, n * sizeof(T));
+      } else {
+        const il::int_t n_old = size();
+        for (il::int_t i = n_old - 1; i >= n; --i) {
           (data_ + i)->~T();
         }
-      }
-      for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = A.data_[i];
+        for (il::int_t i = 0; i < (n < n_old ? n : n_old); ++i) {
+          data_[i] = A.data_[i];
+        }
+        for (il::int_t i = n_old; i < n; ++i) {
+          new (data_ + i) T(A.data_[i]);
+        }
       }
       size_ = data_ + n;
     }
-- 
2.43.0


From 324fcb23ecc967463363392b6e623d91ac8142ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 022/208] fix: SmallArray::Append constructing from an element
 of the array itself read freed memory when growing

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index e374d6c..b4e197d 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -556,9 +556,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x_new(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x_new));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 534668bfc320ece277ec43b537450db3f7c878f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 023/208] fix: Deque::PopBack of the last element left the
 deque with an element

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..a3d4390 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 7cb9e58a01ef966c4bb5d303932b7a85b37cada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 024/208] fix: Deque::PushBack on a full deque that had wrapped
 overwrote the front

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index a3d4390..78446b4 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From d1f4c6c537829c0600359f972075ef717b5f352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 025/208] fix: Deque pushes wrote out of bounds on a deque
 without capacity

---
 il/container/deque/Deque.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index 78446b4..ab8be20 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -94,7 +94,7 @@ void Deque<T>::Reserve(il::int_t n) {
 
 template <typename T>
 void Deque<T>::PushFront(const T& x) {
-  if (back_ == -1 && front_ == -1) {
+  if (back_ == -1 && front_ == -1 && data_.size() > 0) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
@@ -112,7 +112,7 @@ void Deque<T>::PushFront(const T& x) {
 template <typename T>
 template <typename... Args>
 void Deque<T>::PushFront(il::emplace_t, Args&&... args) {
-  if (back_ == -1 && front_ == -1) {
+  if (back_ == -1 && front_ == -1 && data_.size() > 0) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
@@ -129,7 +129,7 @@ void Deque<T>::PushFront(il::emplace_t, Args&&... args) {
 
 template <typename T>
 void Deque<T>::PushBack(const T& x) {
-  if (back_ == -1 && front_ == -1) {
+  if (back_ == -1 && front_ == -1 && data_.size() > 0) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
@@ -152,7 +152,7 @@ void Deque<T>::PushBack(const T& x) {
 template <typename T>
 template <typename... Args>
 void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
-  if (back_ == -1 && front_ == -1) {
+  if (back_ == -1 && front_ == -1 && data_.size() > 0) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-- 
2.43.0


From 8c2a4ba62676ce6c6873ab2ae66af18a5f5e8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 026/208] fix: Array2D::view(range, i1) ignored the stride of
 the array

---
 il/container/2d/Array2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 17b0e9e..4d636d0 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1275,7 +1275,7 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 10c7c7772ae3e24d504c161cba12c42830437bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 027/208] fix: Array2D::Edit(range, i1) did not compile

---
 il/container/2d/Array2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 4d636d0..83e14c5 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1326,7 +1326,7 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From ec19e75dc2848ba52f32a4ca93fa699c4bdbba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 028/208] fix: Array2CEdit::Edit used the column-major layout
 of Array2D

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From 7da5257a5707c5325de2564d58b540b57451020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 029/208] fix: the views of an empty Array2D or Array2C aborted
 in checked builds

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index f58d2b6..c0cec91 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..2a0c95f 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From d92b6811002dae8c0754c2467a172c660deee568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 030/208] fix: LowerArray2D copy assignment within the capacity
 copied only the first elements

---
 il/container/2d/LowerArray2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..a26e436 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -176,7 +176,7 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
-- 
2.43.0


From a05e1d6fc4b71320b0401ec8da0db96e56c96404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 031/208] fix: LowerArray2D copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/2d/LowerArray2D.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index a26e436..a1676c1 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -178,10 +178,14 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       if (il::isTrivial<T>::value) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 4884c2423e3b16ea8f2d82a383ee6477a0d761e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 032/208] fix: LowerArray2D copy assignment beyond the capacity
 destroyed elements it does not have

---
 il/container/2d/LowerArray2D.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index a1676c1..6b0e3ae 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
-- 
2.43.0


From db65f97e7b34a8956d2f27599b62238178d58e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 033/208] fix: UpperArray2D copy assignment within the capacity
 copied only the first elements

---
 il/container/2d/UpperArray2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..d29a921 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -176,7 +176,7 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
-- 
2.43.0


From afdac18a442d46ad7124b802ea3022792667a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 034/208] fix: UpperArray2D copy assignment within the capacity
 assigned to unconstructed elements

---
 il/container/2d/UpperArray2D.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index d29a921..107743d 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -178,10 +178,14 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       if (il::isTrivial<T>::value) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From d785a212e49771a2df390ebbc0763a6819e83ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 035/208] fix: UpperArray2D copy assignment beyond the capacity
 destroyed elements it does not have

---
 il/container/2d/UpperArray2D.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 107743d..d84b89c 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
-- 
2.43.0


From 0d867f160c90db6ee56bb6b9a37f7fe0677f4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 036/208] fix: Map move assignment did not compile

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..cc88ac5 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -357,7 +357,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
@@ -376,6 +376,9 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     nb_tombstones_ = map.nb_tombstones_;
     map.bucket_ = nullptr;
     map.p_ = -1;
+#ifdef IL_DEBUGGER_HELPERS
+    map.size_ = 0;
+#endif
     map.nb_elements_ = 0;
     map.nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From d2559e8751f10718eece884a3652ad0537a8303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 037/208] fix: Map searchCString(pointer, length) did not
 compile

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index cc88ac5..3145736 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -582,7 +582,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
-- 
2.43.0


From 41db62635219f79acd5b6ddf4c8ec9f680e92ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 038/208] fix: Map SetCString(pointer, length) did not compile

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 3145736..d57fb12 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -637,7 +637,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
-- 
2.43.0


From ef200134ddfa27d83545443b3014ba989a6fa761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 039/208] fix: Map built from an empty list had uninitialised
 counters

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d57fb12..2aad239 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -224,6 +224,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
 #endif
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
     hash_ = 0;
 #endif
-- 
2.43.0


From 64fed62ac6b4d5da11d0f31f24192366262a8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 040/208] fix: Map copied from an unallocated map had an
 uninitialised bucket pointer

---
 il/container/hash/Map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 2aad239..0c0589a 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -267,6 +267,7 @@ Map<K, V, F>::Map(const Map<K, V, F>& map) {
 #ifdef IL_DEBUG_CLASS
   hash_ = 0;
 #endif
+  bucket_ = nullptr;
   if (p_ >= 0) {
     const il::int_t m = nbBuckets(p_);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
-- 
2.43.0


From defca1112ab83bca6569bf14e44d59d3f0c38cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 041/208] fix: Map self-assignment read freed memory

---
 il/container/hash/Map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 0c0589a..070441c 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -309,6 +309,9 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
   if (p >= 0) {
-- 
2.43.0


From e52551c15b431aad1b9fa4e7add32c431d7cc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 042/208] fix: Map assignment from an unallocated map leaked
 its elements and storage

---
 il/container/hash/Map.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 070441c..3d783ac 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -314,17 +314,17 @@ Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
   }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 076026072eecb6b7411725aad6c3c0f783498585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 043/208] fix: Map erase hashed a destroyed key

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 3d783ac..e633904 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -808,10 +808,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From f4cfcfce19e67cea18f6b4933971849a71286127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 044/208] fix: iterating over an unallocated Map shifted by a
 negative amount

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index e633904..41d98f8 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -994,7 +994,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1012,7 +1012,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1024,7 +1024,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 6af013cde3547b75546404418793c99d92d41ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 045/208] fix: Map Reserve below the current number of buckets
 lost elements

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 41d98f8..3c69c72 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -926,7 +926,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 24c37d3fdd0a3d598a943a5c82b968988acf1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 046/208] fix: Map Rehash left displaced keys unreachable

---
 il/container/hash/Map.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 3c69c72..ce34222 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1091,8 +1091,17 @@ void Map<K, V, F>::Rehash() {
     }
     for (il::int_t i = 0; i < m; ++i) {
       if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
+        // The tombstones may have been part of the probe sequence of that key.
+        const std::size_t mask = static_cast<std::size_t>(m) - 1;
+        std::size_t j = F::hash(bucket_[i].key, p_);
+        std::size_t delta_j = 1;
+        while (!F::isEmpty(bucket[j].key)) {
+          j += delta_j;
+          j &= mask;
+          ++delta_j;
+        }
+        new (const_cast<K*>(&((bucket + j)->key))) K(std::move(bucket_[i].key));
+        new (&((bucket + j)->value)) V(std::move(bucket_[i].value));
         ((bucket_ + i)->value).~V();
         ((bucket_ + i)->key).~K();
       }
-- 
2.43.0


From 12ef604e1f9e7bcb6a5f36860d0c8c80ad60d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 047/208] fix: Map valueForKey of a missing key returned a
 reference to a temporary

---
 il/container/hash/Map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ce34222..774d87c 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -858,7 +858,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -879,7 +879,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From cbe1d9c2ca5eb6f99ab190d42a89d5a0f79a987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 048/208] fix: Map Set of a new key read a value or key of the
 map itself after relocating it

---
 il/container/hash/Map.h | 93 +++++++----------------------------------
 1 file changed, 16 insertions(+), 77 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 774d87c..407e57d 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -631,6 +631,8 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
 #endif
   IL_EXPECT_FAST(!found(i));
 
+  // The value might be inside the map, which might be relocated.
+  V new_value = value;
   il::int_t i_local = -(1 + i.index);
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
@@ -644,7 +646,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     i_local = -(1 + j.index);
   }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
-  new (&((bucket_ + i_local)->value)) V(value);
+  new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   ++nb_elements_;
 
   i.index = i_local;
@@ -663,6 +665,8 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
 #endif
   IL_EXPECT_FAST(!found(i));
 
+  // The value might be inside the map, which might be relocated.
+  V new_value = value;
   il::int_t i_local = -(1 + i.index);
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
@@ -676,7 +680,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     i_local = -(1 + j.index);
   }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
+  new (&((bucket_ + i_local)->value)) V(std::move(new_value));
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -687,89 +691,24 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
 
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
-#ifdef IL_DEBUG_CLASS
-  IL_EXPECT_FAST(i.signature == hash_);
-#endif
-  IL_EXPECT_FAST(!found(i));
-
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
-  }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
+  // The arguments might be inside the map, which might be relocated.
+  K new_key = key;
+  V new_value = value;
+  Set(std::move(new_key), std::move(new_value), il::io, i);
 }
 
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
-#ifdef IL_DEBUG_CLASS
-  IL_EXPECT_FAST(i.signature == hash_);
-#endif
-  IL_EXPECT_FAST(!found(i));
-
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
-  }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
+  // The key might be inside the map, which might be relocated.
+  K new_key = key;
+  Set(std::move(new_key), std::move(value), il::io, i);
 }
 
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
-#ifdef IL_DEBUG_CLASS
-  IL_EXPECT_FAST(i.signature == hash_);
-#endif
-  IL_EXPECT_FAST(!found(i));
-
-  il::int_t i_local = -(1 + i.index);
-  const il::int_t m = nbBuckets();
-  if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
-      3 * static_cast<std::size_t>(m)) {
-    if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
-      ReserveWithP(p_ == -1 ? 1 : p_ + 1);
-    } else {
-      il::abort();
-    }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
-  }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(value);
-  ++nb_elements_;
-  i.index = i_local;
-#ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
-  i.signature = hash_;
-#endif
+  // The value might be inside the map, which might be relocated.
+  V new_value = value;
+  Set(std::move(key), std::move(new_value), il::io, i);
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 918daebcdd09456566b3428d1a646be80a3a16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 049/208] fix: Map Set of an existing key destroyed the value
 it was given when that is inside the map

---
 il/container/hash/Map.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 407e57d..d3ed4af 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -414,8 +414,9 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value = value;
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -428,8 +429,9 @@ void Map<K, V, F>::Set(const K& key, V&& value) {
   if (!found(i)) {
     Set(key, std::move(value), il::io, i);
   } else {
+    V new_value = std::move(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -442,8 +444,9 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
+    V new_value = std::move(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -456,8 +459,9 @@ void Map<K, V, F>::Set(K&& key, V&& value) {
   if (!found(i)) {
     Set(std::move(key), std::move(value), il::io, i);
   } else {
+    V new_value = std::move(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -471,8 +475,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value = value;
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -486,8 +491,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value = std::move(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
-- 
2.43.0


From 673c2a07e594f7baaecacb1a0ad728998c6c09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 050/208] fix: MapArray Set(K&&, const V&) was declared but not
 defined

---
 il/container/hash/MapArray.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..3337774 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -113,6 +113,12 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  V new_value = value;
+  Set(std::move(key), std::move(new_value));
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
   const il::int_t i = array_.size();
@@ -149,6 +155,12 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
+  V new_value = value;
+  Set(std::move(key), std::move(new_value), il::io, i);
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-- 
2.43.0


From 0d5727a0450d6931cfc8815411565c908c5e3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 051/208] fix: MapArray Set of an existing key appended a
 duplicate

---
 il/container/hash/MapArray.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 3337774..2215862 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -83,9 +83,7 @@ MapArray<K, V, F>::MapArray(il::value_t,
     array_.Reserve(n);
     map_.Reserve(n);
     for (il::int_t i = 0; i < n; ++i) {
-      array_.Append(il::emplace, (list.begin() + i)->key,
-                    (list.begin() + i)->value);
-      map_.Set((list.begin() + i)->key, i);
+      Set((list.begin() + i)->key, (list.begin() + i)->value);
     }
   }
 #ifdef IL_DEBUG_CLASS
@@ -95,6 +93,11 @@ MapArray<K, V, F>::MapArray(il::value_t,
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
+  const il::spot_t s = map_.search(key);
+  if (map_.found(s)) {
+    array_[map_.value(s)].value = value;
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
@@ -105,6 +108,11 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
+  const il::spot_t s = map_.search(key);
+  if (map_.found(s)) {
+    array_[map_.value(s)].value = std::move(value);
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
@@ -121,6 +129,11 @@ void MapArray<K, V, F>::Set(K&& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
+  const il::spot_t s = map_.search(key);
+  if (map_.found(s)) {
+    array_[map_.value(s)].value = std::move(value);
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
-- 
2.43.0


From 319c4b8e930e23d71c6303952eb88ce54dd42bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 052/208] fix: Tree depth depended on which child was added
 last

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..3d91221 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From e50fb6d37e8fa70f5304e96422f80574af70cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 053/208] fix: Tree reported a node with a value as empty

---
 il/container/tree/Tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 3d91221..21f3388 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -118,9 +118,7 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  tree_[s.index].flag |= 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 64db38c6813cc288f046a7491e61e0d30aba2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 054/208] fix: Tree hasChild aborted for the children after the
 fourth one

---
 il/container/tree/Tree.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 21f3388..a7c894c 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -133,20 +133,9 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return (tree_[s.index].flag >> (2 + i)) % 2 == 1;
 };
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 3379914218d5e6fdfdc05425ac8b464dcb1b8e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 055/208] fix: isRune accepted the trail surrogates

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..c552843 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -233,11 +233,11 @@ class StringView {
 
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < surrogate_min || urune > surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
-- 
2.43.0


From d2b61d2b4db09dcbb1a901baf4bc9aa907e69c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 056/208] fix: String move construction from a short string on
 the heap leaked its storage

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index c552843..812230c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
-- 
2.43.0


From e2ae966f1ac327f14b6857324869032201f54906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 057/208] fix: String self-assignment read freed memory

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 812230c..e2467c8 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -404,6 +404,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From 96daaa111f76c786abbff89a4047dec8d5a26f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 058/208] fix: String move assignment leaked its own storage

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e2467c8..0f48d99 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -444,6 +444,9 @@ inline String& String::operator=(String&& s) {
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
+      if (!isSmall()) {
+        il::deallocate(large_.data);
+      }
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-- 
2.43.0


From eabb987a612f5dca5d7f270bd5bededca23e436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 059/208] fix: String growing to a short size leaked its
 storage on the heap

---
 il/container/string/String.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 0f48d99..7ac9e4d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1063,10 +1063,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
+  if (old_is_small && n <= max_small_size_) {
     setSmall(il::StringType::Byte, n);
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
-- 
2.43.0


From 98376147da0fabd8b51b306f1b5b95578900ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 060/208] fix: String Append accepted a negative number of
 characters

---
 il/container/string/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7ac9e4d..6fe3e8d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -585,6 +585,7 @@ inline void String::Append(int rune) {
 }
 
 inline void String::Append(il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_n = size();
-- 
2.43.0


From 4757d16a6c5c962a6f384e62c841491f82ce22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 061/208] fix: String Append of a repeated ASCII rune reported
 one character only

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6fe3e8d..cfd85c9 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -613,7 +613,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
-- 
2.43.0


From d3850b4f727236c73bdbe5777c60f62f542a1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 062/208] fix: String Append of a repeated three-byte rune
 wrote past its storage

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index cfd85c9..719fc24 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -626,7 +626,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From f15bdae4f48dc2896b78ec1c4441bf127847a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 063/208] fix: String Append of a part of the string itself
 read it after relocating it

---
 il/container/string/String.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 719fc24..0b3c90e 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -71,8 +71,15 @@ bool isRune(int rune);
 bool isAscii(const char* s, il::int_t n);
 bool isUtf8(const char* s, il::int_t n);
 
+class String;
 class StringView;
 
+il::String join(const il::StringView& s0, const il::StringView& s1);
+il::String join(const il::StringView& s0, const il::StringView& s1,
+                const il::StringView& s2);
+il::String join(const il::StringView& s0, const il::StringView& s1,
+                const il::StringView& s2, const il::StringView& s3);
+
 // Invariants
 // - If the capacity is > 22, the memory is allocated on the heap
 //   Otherwise, we use small string optimization
@@ -686,6 +693,11 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_n = size();
+  if (old_n + n > capacity()) {
+    // The data might be part of this string, which is going to be relocated
+    *this = il::join(*this, il::StringView{t0, data, n});
+    return;
+  }
   const il::StringType t = joinType(type(), t0);
   Grow(il::unsafe, old_n, old_n + n);
   char* p = this->Data();
@@ -697,6 +709,11 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
 inline void String::Append(const StringView& s0) {
   const il::int_t old_n = size();
   const il::int_t n0 = s0.size();
+  if (old_n + n0 > capacity()) {
+    // The view might be on this string, which is going to be relocated
+    *this = il::join(*this, s0);
+    return;
+  }
   const il::StringType t = joinType(type(), s0.type());
   Grow(il::unsafe, old_n, old_n + n0);
   char* p = Data();
@@ -709,6 +726,11 @@ inline void String::Append(const StringView& s0, const StringView& s1) {
   const il::int_t old_n = size();
   const il::int_t n0 = s0.size();
   const il::int_t n1 = s1.size();
+  if (old_n + n0 + n1 > capacity()) {
+    // The views might be on this string, which is going to be relocated
+    *this = il::join(*this, s0, s1);
+    return;
+  }
   const il::StringType t = joinType(type(), s0.type(), s1.type());
   Grow(il::unsafe, old_n, old_n + n0 + n1);
   char* p = Data();
@@ -724,6 +746,11 @@ inline void String::Append(const StringView& s0, const StringView& s1,
   const il::int_t n0 = s0.size();
   const il::int_t n1 = s1.size();
   const il::int_t n2 = s2.size();
+  if (old_n + n0 + n1 + n2 > capacity()) {
+    // The views might be on this string, which is going to be relocated
+    *this = il::join(*this, s0, s1, s2);
+    return;
+  }
   const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
   Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
   char* p = Data();
-- 
2.43.0


From 877545dea0e6d82099126b4cc0aa3f7d7c05809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 064/208] fix: String Insert lost the terminating null
 character

---
 il/container/string/String.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 0b3c90e..6d49f2f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -774,7 +774,7 @@ inline void String::Insert(il::int_t i, char c) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
+    for (il::int_t k = old_size + 1; k >= i + 1; k--) {
       p[k] = p[k - 1];
     }
     p[i] = c;
@@ -788,7 +788,7 @@ inline void String::Insert(il::int_t i, char c) {
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
+    std::memcpy(new_p + i + 1, p + i, old_size - i + 1);
     large_.data = new_p;
     setLarge(type(), old_size + 1, r);
   }
@@ -808,7 +808,7 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     for (il::int_t k = i; k < i + n; ++k) {
@@ -826,7 +826,7 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
     for (il::int_t k = i; k < i + n; ++k) {
       new_p[k] = c;
     }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -848,7 +848,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
@@ -862,7 +862,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -881,7 +881,7 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
   const il::StringType t_new = il::joinType(type(), t);
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
@@ -895,7 +895,7 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
     large_.data = new_p;
     setLarge(t_new, old_size + n, r);
   }
-- 
2.43.0


From f73ae91c04a42cc0d5f1f8567bbc57d096bf2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 065/208] fix: String Insert leaked the previous storage

---
 il/container/string/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6d49f2f..fc3b6ab 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -789,6 +789,9 @@ inline void String::Insert(il::int_t i, char c) {
     std::memcpy(new_p, p, i);
     new_p[i] = c;
     std::memcpy(new_p + i + 1, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + 1, r);
   }
@@ -827,6 +830,9 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
       new_p[k] = c;
     }
     std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -863,6 +869,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -896,6 +905,9 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
     std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(t_new, old_size + n, r);
   }
-- 
2.43.0


From b3f8f8340ca70da31bb952111b2c0c2b3b3e1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 066/208] fix: String Insert compared the position with the
 number of characters inserted

---
 il/container/string/String.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index fc3b6ab..7e70a80 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -801,7 +801,9 @@ inline void String::Insert(il::int_t i, char c) {
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
@@ -879,7 +881,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
-- 
2.43.0


From c4e9bbdb3a07e29f9584c1fa6c3f37b7a051319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 067/208] fix: String Insert of a literal kept reporting an
 ASCII string

---
 il/container/string/String.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7e70a80..77344e0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -854,6 +854,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
   const il::int_t old_size = size();
   const il::int_t old_capacity = capacity();
   const bool old_is_small = isSmall();
+  const il::StringType t_new = il::joinType(type(), il::StringType::Utf8);
   char* p = Data();
   if (old_size + n <= old_capacity) {
     for (il::int_t k = old_size + n; k >= i + n; k--) {
@@ -861,9 +862,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     }
     std::memcpy(p + i, s, n);
     if (old_is_small) {
-      setSmall(type(), old_size + n);
+      setSmall(t_new, old_size + n);
     } else {
-      setLarge(type(), old_size + n, old_capacity);
+      setLarge(t_new, old_size + n, old_capacity);
     }
   } else {
     const il::int_t r = nextCapacity(old_size + n);
@@ -875,7 +876,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
       il::deallocate(p);
     }
     large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+    setLarge(t_new, old_size + n, r);
   }
 }
 
-- 
2.43.0


From 6738bcafb347344593a0f972bd4d811151fcb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 068/208] fix: String Insert of a part of the string itself
 read it after moving it

---
 il/container/string/String.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 77344e0..dc8bddd 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -888,6 +888,12 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
+  if (s >= data() && s < data() + size()) {
+    // The inserted characters are part of this string, and are going to move
+    const il::String copy{t, s, n};
+    Insert(i, t, copy.data(), n);
+    return;
+  }
 
   const il::int_t old_size = size();
   const il::int_t old_capacity = capacity();
-- 
2.43.0


From cff1397ac096d9c737b258e7e4798584069645a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 069/208] fix: String substring and subview read the inline
 storage of strings on the heap

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index dc8bddd..7d75cbb 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -977,7 +977,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -991,7 +991,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From ce724832784cea79c4bda2b699165b25d801186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 070/208] fix: String endsWith(char) compared the first
 character with the letter c

---
 il/container/string/String.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7d75cbb..a2f1e37 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1052,11 +1052,7 @@ inline bool String::endsWith(char c) const {
     return false;
   }
   const char* s = data();
-  if (*s == 'c') {
-    return true;
-  } else {
-    return false;
-  }
+  return s[n - 1] == c;
 }
 
 inline const char* String::asCString() const {
-- 
2.43.0


From 865175e2a2dfdd2e4a7d9d660b90a421aa915125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 071/208] fix: String isEqual was true for every string
 starting with its argument

---
 il/container/string/String.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a2f1e37..727d13f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1062,18 +1062,19 @@ inline const char* String::asCString() const {
 inline bool String::isEqual(const char* s) const {
   bool ans = true;
   const char* p = data();
+  const il::int_t n = size();
   il::int_t i = 0;
-  while (ans && s[i] != '\0') {
+  while (ans && i < n && s[i] != '\0') {
     if (p[i] != s[i]) {
       ans = false;
     }
     ++i;
   }
-  return ans;
+  return ans && i == n && s[i] == '\0';
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = size() == n;
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
-- 
2.43.0


From 0af317c4932ffe76e526b03298ff90f42dc79c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 072/208] fix: StringView operator== was true for every prefix

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 727d13f..ddf8866 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1484,7 +1484,7 @@ inline bool StringView::operator==(const char* string) const {
     }
     ++k;
   }
-  return match;
+  return match && k == size() && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From a03d6f01235ff44d9681e27d568a0d7746234cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 073/208] fix: printing a string ignored its size

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index ddf8866..9be023e 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1653,11 +1653,11 @@ inline il::String toString(const char* s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& s) {
-  return os << s.data();
+  return os.write(s.data(), static_cast<std::streamsize>(s.size()));
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os << s.data();
+  return os.write(s.data(), static_cast<std::streamsize>(s.size()));
 }
 
 }  // namespace il
-- 
2.43.0


From 7304d2bd8d3da6c00b3e50449a4dc0b67d512a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 074/208] fix: String operator< stopped at the first null
 character

---
 il/container/string/String.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 9be023e..066180b 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1588,13 +1588,19 @@ inline il::String join(const il::StringView& s0, const il::StringView& s1,
 }
 
 inline bool operator<(const il::String& s0, const il::String& s1) {
-  const int compare = std::strcmp(s0.data(), s1.data());
-  return compare < 0;
+  const il::int_t n0 = s0.size();
+  const il::int_t n1 = s1.size();
+  const int compare =
+      std::memcmp(s0.data(), s1.data(), static_cast<std::size_t>(n0 < n1 ? n0 : n1));
+  return compare < 0 || (compare == 0 && n0 < n1);
 }
 
 inline bool operator<(const char* s0, const il::String& s1) {
-  const int compare = std::strcmp(s0, s1.data());
-  return compare < 0;
+  const il::int_t n0 = il::size(s0);
+  const il::int_t n1 = s1.size();
+  const int compare =
+      std::memcmp(s0, s1.data(), static_cast<std::size_t>(n0 < n1 ? n0 : n1));
+  return compare < 0 || (compare == 0 && n0 < n1);
 }
 
 inline bool operator==(const il::String& s0, const il::String& s1) {
-- 
2.43.0


From aa99d6cccde6f887ba85201c678faf518bd5056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 075/208] fix: toString truncated the integers of more than 11
 characters

---
 il/container/string/algorithmString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..37fe085 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,8 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From 94fd94ba2728618b9b4172eb07298f8971d54127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 076/208] fix: isUtf8 accepted ill-formed strings and rejected
 well-formed ones

---
 il/container/string/String.h | 100 +++++++++++++++++------------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 066180b..49fdd0e 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1232,59 +1232,59 @@ inline constexpr bool isAscii(const char* data) {
 //  return ans;
 //}
 
-inline constexpr bool auxIsUtf8(const char* s, int nbBytes, int pos,
-                                bool surrogate) {
-  return (pos == 0)
-             // If it starts with the null character, the string is valid
-             ? ((*s == 0x00)
-                    ? true
-                    // Otherwise, let's check if is starts with an ASCII
-                    // character
-                    : ((*s & 0x80) == 0
-                           // In this case, check the rest of the string
-                           ? auxIsUtf8(s + 1, 0, 0, false)
-                           // Otherwise, it might start with a 2-byte sequence
-                           : ((*s & 0xD0) == 0xB0
-                                  // In this case, check the rest of the string
-                                  ? auxIsUtf8(s + 1, 2, 1, false)
-                                  // Otherwise, it might start with a 3-byte
-                                  // sequence
-                                  : ((*s & 0xF0) == 0xD0
-                                         // In this case, check the rest of the
-                                         // string
-                                         ? auxIsUtf8(
-                                               s + 1, 3, 1,
-                                               (static_cast<unsigned char>(
-                                                    *s) == 0xED))
-                                         // Otherwise, it might start with a
-                                         // 4-byte sequence
-                                         : ((*s & 0xF8) == 0xF0
-                                                ? auxIsUtf8(s + 1, 4, 1, false)
-                                                : false)))))
-             // In the case where we are scanning the second byte of a multibyte
-             // sequence
-             : ((pos == 1)
-                    ? ((*s & 0xC0) == 0x80
-                           ? (nbBytes == 2 ? ((*s & 0xA0) != 0xA0)
-                                           : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                       surrogate))
-                           : false)
-                    // In the case where we are scanning the third byte of a
-                    // multibyte sequence
-                    : ((pos == 2)
-                           ? ((*s & 0xC0) == 0x80
-                                  ? (nbBytes == 3
-                                         ? true
-                                         : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                     surrogate))
-                                  : false)
-                           // In the case where we are scanning the
-                           // fourth byte of a multibyte sequence
-                           : ((pos == 3) ? ((*s & 0xC0) == 0x80) : false)));
+inline constexpr bool isUtf8Trail(char c) {
+  return (static_cast<unsigned char>(c) & 0xC0_uchar) == 0x80_uchar;
+}
+
+inline constexpr bool isUtf8Between(char c, unsigned char min,
+                                    unsigned char max) {
+  return static_cast<unsigned char>(c) >= min &&
+         static_cast<unsigned char>(c) <= max;
+}
+
+// Number of bytes of the valid UTF-8 sequence that starts at s, or 0 if there
+// is none. No byte is read after the first one that makes it invalid.
+inline constexpr int utf8Length(const char* s) {
+  return isUtf8Between(s[0], 0x00_uchar, 0x7F_uchar)
+             ? 1
+             : isUtf8Between(s[0], 0xC2_uchar, 0xDF_uchar)
+                   ? (isUtf8Trail(s[1]) ? 2 : 0)
+                   : isUtf8Between(s[0], 0xE0_uchar, 0xEF_uchar)
+                         ? (isUtf8Trail(s[1]) &&
+                                    // Overlong sequences
+                                    !(isUtf8Between(s[0], 0xE0_uchar,
+                                                    0xE0_uchar) &&
+                                      isUtf8Between(s[1], 0x80_uchar,
+                                                    0x9F_uchar)) &&
+                                    // Surrogates
+                                    !(isUtf8Between(s[0], 0xED_uchar,
+                                                    0xED_uchar) &&
+                                      isUtf8Between(s[1], 0xA0_uchar,
+                                                    0xBF_uchar)) &&
+                                    isUtf8Trail(s[2])
+                                ? 3
+                                : 0)
+                         : isUtf8Between(s[0], 0xF0_uchar, 0xF4_uchar)
+                               ? (isUtf8Trail(s[1]) &&
+                                          // Overlong sequences
+                                          !(isUtf8Between(s[0], 0xF0_uchar,
+                                                          0xF0_uchar) &&
+                                            isUtf8Between(s[1], 0x80_uchar,
+                                                          0x8F_uchar)) &&
+                                          // After the last code point
+                                          !(isUtf8Between(s[0], 0xF4_uchar,
+                                                          0xF4_uchar) &&
+                                            isUtf8Between(s[1], 0x90_uchar,
+                                                          0xBF_uchar)) &&
+                                          isUtf8Trail(s[2]) && isUtf8Trail(s[3])
+                                      ? 4
+                                      : 0)
+                               : 0;
 }
 
 inline constexpr bool isUtf8(const char* s) {
-  return auxIsUtf8(s, 0, 0, false);
+  return s[0] == '\0' ? true
+                      : (utf8Length(s) > 0 && isUtf8(s + utf8Length(s)));
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2aa924cc372e233409115f95d7401c2c819fa2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 077/208] fix: printing a string ignored the width of the
 stream

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 49fdd0e..e522318 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1659,11 +1659,11 @@ inline il::String toString(const char* s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& s) {
-  return os.write(s.data(), static_cast<std::streamsize>(s.size()));
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os.write(s.data(), static_cast<std::streamsize>(s.size()));
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 }  // namespace il
-- 
2.43.0


From c140c612f7d9b95ce29c04205ef8cc793ab65d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 078/208] fix: isUtf8(pointer, size) was declared but not
 defined

---
 il/container/string/String.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e522318..59bbd09 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1282,6 +1282,22 @@ inline constexpr int utf8Length(const char* s) {
                                : 0;
 }
 
+inline bool isUtf8(const char* s, il::int_t n) {
+  il::int_t i = 0;
+  while (i < n) {
+    char c[4] = {'\0', '\0', '\0', '\0'};
+    for (il::int_t k = 0; k < 4 && i + k < n; ++k) {
+      c[k] = s[i + k];
+    }
+    const int length = utf8Length(c);
+    if (length == 0) {
+      return false;
+    }
+    i += length;
+  }
+  return true;
+}
+
 inline constexpr bool isUtf8(const char* s) {
   return s[0] == '\0' ? true
                       : (utf8Length(s) > 0 && isUtf8(s + utf8Length(s)));
-- 
2.43.0


From cbdf23237c61b6e7a8511d5496a89814e16ed515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 079/208] fix: UTF16String move construction from a short
 string on the heap leaked its storage

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..555a544 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -133,7 +133,7 @@ inline UTF16String::UTF16String(const UTF16String& s) {
 
 inline UTF16String::UTF16String(UTF16String&& s) {
   const il::int_t size = s.size();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
     SetSmallSize(size);
   } else {
-- 
2.43.0


From 99216fc69f1e0fb68b7781225f3cc511f3755b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 080/208] fix: UTF16String self-assignment read freed memory

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 555a544..07be5c1 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,6 +146,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From c9b51bcced854c657418aefc2b3a196d5db09dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 081/208] fix: UTF16String move assignment leaked its own
 storage

---
 il/container/string/UTF16String.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 07be5c1..baf25d0 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -178,10 +178,10 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
-- 
2.43.0


From a5e567b452e4bce572f97f77b56b330cd581995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 082/208] fix: UTF16String Append of a repeated character wrote
 past its storage

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index baf25d0..327f430 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -275,7 +275,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From 775c5cc3ee55a810f603a2a626624cf5d98f2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 083/208] fix: UTF16String Append of a repeated rune did
 nothing

---
 il/container/string/UTF16String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 327f430..f4280f6 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -324,8 +324,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From 0502ea396967bfd2ecb317539b537c726f0dda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 084/208] fix: UTF16String Append of a part of the string
 itself read it after relocating it

---
 il/container/string/UTF16String.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index f4280f6..2f379ae 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -21,6 +21,7 @@
 
 // <cstring> is needed for memcpy
 #include <cstring>
+#include <utility>
 
 #include <il/core.h>
 #include <il/core/memory/allocate.h>
@@ -415,7 +416,19 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
   const il::int_t old_size = size();
   const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
+  if (new_capacity > capacity()) {
+    // The data might be a part of this very string: it is copied before the
+    // storage it lies in is released
+    il::UTF16String s{};
+    s.Reserve(new_capacity);
+    std::memcpy(s.Data(), this->data(),
+                2 * static_cast<std::size_t>(old_size));
+    std::memcpy(s.Data() + old_size, data, 2 * static_cast<std::size_t>(n));
+    s.Data()[old_size + n] = static_cast<unsigned short>('\0');
+    s.large_.size = static_cast<std::size_t>(old_size + n);
+    *this = std::move(s);
+    return;
+  }
 
   if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
-- 
2.43.0


From d594fd560512919eb8dbfe0380f67512f3c7d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 085/208] fix: UTF16String accepted the trail surrogates as
 runes

---
 il/container/string/UTF16String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 2f379ae..2dbcf4b 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -444,10 +444,10 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
   const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int trail_surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < lead_surrogate_min || ucp > trail_surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From 933d4887ba01aeedecf7f2203dc09185f11dabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 086/208] fix: toUtf16 and toUtf8 appended a null character to
 the text

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From 1f54fa26ee40082030ffe898e398cd7c6bce1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 087/208] fix: a Dynamic built from an Array<unsigned int>
 reported an array of int

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..0c45e83 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 4e833877447a6cd5d21eb832bf287807863c6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 088/208] fix: Dynamic(Array<short>&&) was declared but not
 defined

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0c45e83..6a99a92 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -267,6 +267,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From dc201d7d839772b894382c5b536e32037f214b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 089/208] fix: copying a Dynamic that holds an Array2D aborted

---
 il/container/dynamic/Dynamic.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6a99a92..8eae9db 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -638,6 +638,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From 7502a3df8302507cc08b39504129d46658fb555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 090/208] fix: destroying a Dynamic that holds an
 Array2D<unsigned char> aborted

---
 il/container/dynamic/Dynamic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 8eae9db..bcba3b1 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -707,6 +707,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From fa17188f145f8e6ba6fef5ac40de7fc08ed70db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 091/208] fix: assigning a Dynamic to itself or to one that
 contains it read freed memory

---
 il/container/dynamic/Dynamic.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index bcba3b1..60abc8d 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -496,25 +496,23 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
-  return *this;
+  // other might be this object or a part of it: it is copied first
+  il::Dynamic copy{other};
+  return *this = std::move(copy);
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
+  if (this != &other) {
+    // other might be a part of this object
+    const il::Type type = other.type_;
+    const std::uint64_t data = other.data_;
+    other.type_ = il::Type::Void;
+    if (!isStackAllocated()) {
+      ReleaseMemory();
+    }
+    type_ = type;
+    data_ = data;
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
   return *this;
 }
 
-- 
2.43.0


From a8da2d5614736f830264c55cf2d17af2d86e647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 092/208] fix: assigning to a Dynamic a string that it contains
 read freed memory

---
 il/container/dynamic/Dynamic.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 60abc8d..d27f1ae 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -463,20 +463,24 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  // value might be a part of this object
+  il::String *p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  // value might be a part of this object
+  il::String *p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
-- 
2.43.0


From a2ad8384f004a5deb9d52cf34ab773b8b739c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 093/208] fix: the type identifiers of the small integers were
 missing, so that a Dynamic could not give them back

---
 il/container/dynamic/Type.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..6a54b92 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,26 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
-- 
2.43.0


From ea6f98f5bd6029863bac3f6ec4082309f6540b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 094/208] fix: assigning a string literal to a Dynamic stored
 the boolean true

---
 il/container/dynamic/Dynamic.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index d27f1ae..d947024 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -95,6 +95,8 @@ class Dynamic {
 #endif
   il::Dynamic &operator=(float value);
   il::Dynamic &operator=(double value);
+  template <il::int_t m>
+  il::Dynamic &operator=(const char (&value)[m]);
   il::Dynamic &operator=(const il::String &value);
   il::Dynamic &operator=(il::String &&value);
   il::Dynamic &operator=(const il::Dynamic &other);
@@ -462,6 +464,11 @@ inline il::Dynamic &Dynamic::operator=(double value) {
   return *this;
 }
 
+template <il::int_t m>
+il::Dynamic &Dynamic::operator=(const char (&value)[m]) {
+  return *this = il::String{value};
+}
+
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
   // value might be a part of this object
   il::String *p = new il::String{value};
-- 
2.43.0


From 8e6ee769037d77dfa33d3797dbdbf13e83fe7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 095/208] fix: Info never released its storage on the heap

---
 il/container/info/Info.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..5d2ed06 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -167,6 +168,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 88f21b0cba1cbf3f3ac9a6e602cd573b96f39ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 096/208] fix: Info move assignment leaked its own storage

---
 il/container/info/Info.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 5d2ed06..740ebf7 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -154,10 +154,10 @@ inline Info& Info::operator=(const Info& other) {
 inline Info& Info::operator=(Info&& other) {
   if (this != &other) {
     const il::int_t size = other.size();
+    if (!isSmall()) {
+      delete[] large_.data;
+    }
     if (size <= max_small_size_) {
-      if (!isSmall()) {
-        delete[] large_.data;
-      }
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
-- 
2.43.0


From 0363a488a93b1d224ad4de1a68fbee58c44bdd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 097/208] fix: an int recorded in an Info could not be read
 back

---
 il/container/info/Info.h | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 740ebf7..407755d 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -175,25 +175,7 @@ inline Info::~Info() {
 }
 
 inline void Info::Set(const char* key, int value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
-
-  p[i] = 3;
-  ++i;
-
-  Set(value, p + i);
+  Set(key, static_cast<il::int_t>(value));
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From 216e6fb1ba80d1f881061daf0688aa6abc1a25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 098/208] fix: Info search found the keys that are a prefix of
 its argument and missed the non-ASCII ones

---
 il/container/info/Info.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 407755d..48fda58 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -259,10 +259,11 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' &&
+           p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (p[i + sizeof(int) + j] == '\0' && key[j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From df844ddf7b4a4a741f70c0e00989a0553cbdc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 099/208] fix: Info kept the first value recorded for a key
 instead of the last one

---
 il/container/info/Info.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 48fda58..3d1540d 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -253,24 +253,23 @@ inline void Info::Set(const char* key, const char* value) {
 inline il::int_t Info::search(const char* key) const {
   const unsigned char* p = data();
   il::int_t i = 0;
-  bool found = false;
-  il::int_t j;
-  while (!found && i < size()) {
+  il::int_t ans = -1;
+  // A key might have been recorded many times: the last one is the right one
+  while (i < size()) {
     const int step = get_int(i);
 
-    j = 0;
+    il::int_t j = 0;
     while (key[j] != '\0' &&
            p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
     if (p[i + sizeof(int) + j] == '\0' && key[j] == '\0') {
-      found = true;
-    } else {
-      i += step;
+      ans = i + static_cast<il::int_t>(sizeof(int)) + j + 1;
     }
+    i += step;
   }
 
-  return found ? i + static_cast<il::int_t>(sizeof(int)) + j + 1 : -1;
+  return ans;
 }
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
-- 
2.43.0


From 857349c9f68f0141e243d2b423fa1201bd33484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 100/208] fix: the boolean members of Info were declared but
 not defined

---
 il/container/info/Info.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 3d1540d..afa4eb6 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -174,6 +174,28 @@ inline Info::~Info() {
   }
 }
 
+inline void Info::Set(const char* key, bool value) {
+  const int key_length = static_cast<int>(strlen(key));
+  const int n = key_length + 3 + static_cast<int>(sizeof(int));
+  il::int_t i = size();
+  Resize(i + n);
+
+  unsigned char* p = data();
+
+  Set(n, p + i);
+  i += sizeof(int);
+
+  for (il::int_t j = 0; j < key_length + 1; ++j) {
+    p[i + j] = key[j];
+  }
+  i += key_length + 1;
+
+  p[i] = 3;
+  ++i;
+
+  p[i] = value ? 1 : 0;
+}
+
 inline void Info::Set(const char* key, int value) {
   Set(key, static_cast<il::int_t>(value));
 }
@@ -274,12 +296,20 @@ inline il::int_t Info::search(const char* key) const {
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
 
+inline bool Info::isBool(il::int_t i) const { return data()[i] == 3; }
+
 inline bool Info::isInteger(il::int_t i) const { return data()[i] == 0; }
 
 inline bool Info::isDouble(il::int_t i) const { return data()[i] == 1; }
 
 inline bool Info::isString(il::int_t i) const { return data()[i] == 2; }
 
+inline bool Info::toBool(il::int_t i) const {
+  IL_EXPECT_FAST(isBool(i));
+
+  return data()[i + 1] != 0;
+}
+
 inline il::int_t Info::toInteger(il::int_t i) const {
   IL_EXPECT_FAST(isInteger(i));
 
@@ -316,6 +346,13 @@ inline const char* Info::asCString(il::int_t i) const {
   return reinterpret_cast<const char*>(data()) + i + 1;
 }
 
+inline bool Info::toBool(const char* key) const {
+  const il::int_t i = search(key);
+  IL_ENSURE(found(i));
+
+  return toBool(i);
+}
+
 inline il::int_t Info::toInteger(const char* key) const {
   const il::int_t i = search(key);
   IL_ENSURE(found(i));
-- 
2.43.0


From 4f74b0b2b06a5b305a5c9c93decf13b7631b74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 101/208] fix: moving an examined Status required to examine it
 again

---
 il/container/info/Status.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 5a63664..1383377 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -131,7 +131,7 @@ inline Status::Status() : info_{} {
 
 inline Status::Status(Status&& other) {
   ok_ = other.ok_;
-  to_check_ = true;
+  to_check_ = other.to_check_;
   error_ = other.error_;
   info_ = other.info_;
 
@@ -142,7 +142,7 @@ inline Status& Status::operator=(Status&& other) {
   IL_EXPECT_MEDIUM(!to_check_);
 
   ok_ = other.ok_;
-  to_check_ = true;
+  to_check_ = other.to_check_;
   error_ = other.error_;
   info_ = other.info_;
 
-- 
2.43.0


From 09c9690d717eef45e9a4b5e535effca7d6abd528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 102/208] fix: Status domain was declared but not defined

---
 il/container/info/Status.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 1383377..a6e68e5 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -255,6 +255,12 @@ inline il::Error Status::error() const {
 
   return error_;
 }
+
+inline il::ErrorDomain Status::domain() const {
+  IL_EXPECT_MEDIUM(!to_check_);
+
+  return il::domain(error_);
+}
 }  // namespace il
 
 #endif  // IL_STATUS_H
-- 
2.43.0


From da0cb383429a5262afc2f4578a045e60f83d0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 103/208] fix: safeDivision did not report the absence of error

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From f90e0b8a165ebaed7cbbed858c7d2fa91cfeccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 104/208] fix: safeProduct2Positive overflowed without
 reporting an error

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From 03a25a63cbdbb28e14c6c78e25e57a9897d73815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 105/208] fix: min, max and maxAbs truncated the values to
 integers

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From e4f38b8f42801f67002fa6a2ec4d24546042d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 106/208] fix: maxAbs over a range ignored the negative values

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..632a33a 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From 905145c0bddb9ec79dfe031cad4bc6df578551f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 107/208] fix: minMax over a range read the element after the
 range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 632a33a..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From 17cc1772c0b9961fc97eca8d587c3039a067e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 108/208] fix: sort of a constant array did not compile

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index db487e3..734cf59 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -326,7 +326,7 @@ il::Array<T> sort(il::Array<T>& v) {
 template <typename T>
 il::Array<T> sort(const il::Array<T>& v) {
   il::Array<T> ans = v;
-  std::sort(ans.Data(), ans.end());
+  il::sort_aux(il::Range{0, ans.size()}, il::io, ans);
   return ans;
 }
 
-- 
2.43.0


From 28a54ec0e6528550ffa4b272829a23b2dd3e9bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 109/208] fix: sort of an array with many equal elements
 exhausted the stack

---
 il/algorithm/algorithmArray.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 734cf59..012197a 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -301,9 +301,20 @@ void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
     v[i_end] = v[j];
     v[j] = aux;
   }
+  // Gather the elements that are equal to the pivot next to it, so that they
+  // are left out of the recursion
+  il::int_t k = j + 1;
+  for (il::int_t i = j + 1; i < range.end; ++i) {
+    if (!(value_pivot < v[i])) {
+      const T aux = v[i];
+      v[i] = v[k];
+      v[k] = aux;
+      ++k;
+    }
+  }
   // Recursively sort the 2 other parts
   sort_aux(il::Range{range.begin, j}, il::io, v);
-  sort_aux(il::Range{j + 1, range.end}, il::io, v);
+  sort_aux(il::Range{k, range.end}, il::io, v);
 }
 
 template <typename T>
-- 
2.43.0


From 3a37dc626c820e9ef4310bd9f81b74d477c13cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 110/208] fix: minMax over a column of a matrix returned values
 that are not in the matrix

---
 il/algorithm/algorithmArray2D.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/il/algorithm/algorithmArray2D.h b/il/algorithm/algorithmArray2D.h
index bf36f4d..dd01106 100644
--- a/il/algorithm/algorithmArray2D.h
+++ b/il/algorithm/algorithmArray2D.h
@@ -19,8 +19,6 @@
 #ifndef IL_ALGORITHMARRAY2D_H
 #define IL_ALGORITHMARRAY2D_H
 
-#include <limits>
-
 #include <il/Array2D.h>
 #include <il/algorithmArray.h>
 
@@ -31,9 +29,9 @@ MinMax<T> minMax(const il::Array2D<T>& A, il::Range i0_range, il::int_t i1) {
   IL_EXPECT_FAST(i0_range.begin < i0_range.end);
 
   MinMax<T> ans{};
-  ans.min = std::numeric_limits<T>::max();
-  ans.max = -std::numeric_limits<T>::max();
-  for (il::int_t i0 = i0_range.begin; i0 < i0_range.end; ++i0) {
+  ans.min = A(i0_range.begin, i1);
+  ans.max = A(i0_range.begin, i1);
+  for (il::int_t i0 = i0_range.begin + 1; i0 < i0_range.end; ++i0) {
     if (A(i0, i1) < ans.min) {
       ans.min = A(i0, i1);
     }
-- 
2.43.0


From 65d37dab54900d063a59021c01489d6478b87083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 111/208] fix: a band matrix with a negative size or width was
 not rejected

---
 il/container/2d/BandArray2C.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 6dc63a8..2f84b45 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -49,6 +49,9 @@ class BandArray2C {
 template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n, il::int_t width)
     : element_{n, 1 + 3 * width, 0} {
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(width >= 0);
+
   n0_ = n;
   n1_ = n;
   width_left_ = width;
@@ -60,6 +63,11 @@ template <typename T>
 BandArray2C<T>::BandArray2C(il::int_t n0, il::int_t n1, il::int_t width_left,
                             il::int_t width_right)
     : element_{n0, 1 + 2 * width_left + width_right, 0} {
+  IL_EXPECT_FAST(n0 >= 0);
+  IL_EXPECT_FAST(n1 >= 0);
+  IL_EXPECT_FAST(width_left >= 0);
+  IL_EXPECT_FAST(width_right >= 0);
+
   n0_ = n0;
   n1_ = n1;
   width_left_ = width_left;
-- 
2.43.0


From f8470f093c124abdc3fca3f31dc2ddc943582414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 112/208] fix: a tridiagonal matrix with a negative size was
 not always rejected

---
 il/container/2d/TriDiagonal.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/TriDiagonal.h b/il/container/2d/TriDiagonal.h
index 256557e..3c7b237 100644
--- a/il/container/2d/TriDiagonal.h
+++ b/il/container/2d/TriDiagonal.h
@@ -30,7 +30,12 @@ class TriDiagonal {
   il::Array<T> data_;
 
  public:
-  TriDiagonal(il::int_t n) : data_{3 * n} { size_ = n; }
+  TriDiagonal(il::int_t n) : data_{} {
+    IL_EXPECT_FAST(n >= 0);
+
+    data_.Resize(3 * n);
+    size_ = n;
+  }
   const T& operator()(il::int_t i, il::int_t k) const {
     IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
                      static_cast<std::size_t>(size_));
-- 
2.43.0


From aa964fa1b89bfaf5819efc9c75779b7d97089adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 113/208] fix: a child of a tree node with an index out of
 range was not rejected

---
 il/container/tree/Tree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index a7c894c..7a7e777 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -110,6 +110,7 @@ il::spot_t Tree<T, n>::parent(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
   IL_EXPECT_MEDIUM(tree_[s.index].hasChild());
 
   return il::spot_t{n * s.index + 1 + i};
-- 
2.43.0


From ad5c704d9719909efb9f4f7fd0e4fe93a7dfd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 114/208] fix: a view of a part of a column outside the matrix
 was not rejected

---
 il/container/2d/Array2D.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 83e14c5..7c1c736 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1275,6 +1275,12 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
+  IL_EXPECT_FAST(range0.begin >= 0);
+  IL_EXPECT_FAST(range0.begin <= range0.end);
+  IL_EXPECT_FAST(range0.end <= size(0));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
@@ -1326,6 +1332,12 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
+  IL_EXPECT_FAST(range0.begin >= 0);
+  IL_EXPECT_FAST(range0.begin <= range0.end);
+  IL_EXPECT_FAST(range0.end <= size(0));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
-- 
2.43.0


From aea7d357db5deea05c4de5255e80e4885b2e0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 115/208] fix: access to a sparse matrix with a negative index
 was not rejected

---
 il/container/2d/SparseMatrixCSR.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..8f8e899 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -252,6 +252,7 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
+  IL_EXPECT_FAST(k >= 0);
   IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
                  static_cast<std::size_t>(row_[i + 1]));
   return element_[row_[i] + k];
@@ -260,6 +261,7 @@ T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
+  IL_EXPECT_FAST(k >= 0);
   IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
                  static_cast<std::size_t>(row_[i + 1]));
   return element_[row_[i] + k];
-- 
2.43.0


From 5cebb913d47152877f536d5e323e6ff4432c4e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 116/208] fix: a malformed header of a NumPy file was trusted

---
 il/io/numpy/numpy.cpp | 194 +++++++++++++++++++++++++++++-------------
 1 file changed, 135 insertions(+), 59 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..21a8914 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -18,11 +18,134 @@
 
 #include <il/io/numpy/numpy.h>
 
+#include <cstring>
+#include <limits>
+
 #include <il/String.h>
 #include <il/container/string/algorithmString.h>
 
 namespace il {
 
+namespace {
+
+// Reader for the Python dictionary of the header of a Numpy file
+class NumpyHeaderReader {
+ private:
+  const char* p_;
+  const char* end_;
+
+ public:
+  NumpyHeaderReader(const char* begin, const char* end)
+      : p_{begin}, end_{end} {}
+
+  bool readInfo(NumpyInfo& info) {
+    bool has_type = false;
+    bool has_order = false;
+    bool has_shape = false;
+    if (!readChar('{')) return false;
+    while (!readChar('}')) {
+      if (readKey("descr")) {
+        if (!readType(info.type)) return false;
+        has_type = true;
+      } else if (readKey("fortran_order")) {
+        if (readWord("True")) {
+          info.fortran_order = true;
+        } else if (readWord("False")) {
+          info.fortran_order = false;
+        } else {
+          return false;
+        }
+        has_order = true;
+      } else if (readKey("shape")) {
+        if (!readShape(info.shape)) return false;
+        has_shape = true;
+      } else {
+        return false;
+      }
+      if (!readChar(',')) {
+        if (!readChar('}')) return false;
+        break;
+      }
+    }
+    skipSpaces();
+    return p_ == end_ && has_type && has_order && has_shape;
+  }
+
+ private:
+  void skipSpaces() {
+    while (p_ < end_ && (*p_ == ' ' || *p_ == '\n' || *p_ == '\t')) ++p_;
+  }
+
+  bool readChar(char c) {
+    skipSpaces();
+    if (p_ == end_ || *p_ != c) return false;
+    ++p_;
+    return true;
+  }
+
+  bool readWord(const char* word) {
+    skipSpaces();
+    const il::int_t n = il::size(word);
+    if (end_ - p_ < n || std::memcmp(p_, word, n) != 0) return false;
+    p_ += n;
+    return true;
+  }
+
+  bool readKey(const char* key) {
+    skipSpaces();
+    const char* begin = p_;
+    if (p_ < end_ && (*p_ == '\'' || *p_ == '"')) {
+      const char quote = *p_;
+      const il::int_t n = il::size(key);
+      if (end_ - p_ >= n + 2 && std::memcmp(p_ + 1, key, n) == 0 &&
+          p_[n + 1] == quote) {
+        p_ += n + 2;
+        if (readChar(':')) return true;
+      }
+    }
+    p_ = begin;
+    return false;
+  }
+
+  bool readType(il::String& type) {
+    skipSpaces();
+    if (p_ == end_ || (*p_ != '\'' && *p_ != '"')) return false;
+    const char quote = *p_++;
+    // Only little endian files are supported
+    if (p_ == end_ || (*p_ != '<' && *p_ != '|')) return false;
+    const char* begin = ++p_;
+    while (p_ < end_ && *p_ != quote) ++p_;
+    if (p_ == end_ || p_ == begin) return false;
+    type = il::String{il::StringType::Byte, begin, p_ - begin};
+    ++p_;
+    return true;
+  }
+
+  bool readShape(il::Array<il::int_t>& shape) {
+    shape.Resize(0);
+    if (!readChar('(')) return false;
+    while (!readChar(')')) {
+      il::int_t n = 0;
+      skipSpaces();
+      const char* begin = p_;
+      while (p_ < end_ && *p_ >= '0' && *p_ <= '9') {
+        if (n > (std::numeric_limits<il::int_t>::max() - 9) / 10) return false;
+        n = 10 * n + (*p_ - '0');
+        ++p_;
+      }
+      if (p_ == begin) return false;
+      shape.Append(n);
+      if (!readChar(',')) {
+        // A tuple with one element needs its comma
+        return readChar(')') && shape.size() != 1;
+      }
+    }
+    return true;
+  }
+};
+
+}  // namespace
+
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   NumpyInfo numpy_info;
 
@@ -50,8 +173,9 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   }
   char major_version = buffer[6];
   char minor_version = buffer[7];
-  unsigned short header_length =
-      *reinterpret_cast<unsigned short*>(first_buffer + 8);
+  const il::int_t header_length =
+      static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[8])) +
+      256 * static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[9]));
   if (major_version != 1 || minor_version != 0) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
@@ -60,73 +184,25 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   // Read the header
   //
-  il::Array<char> second_buffer{header_length + 1};
-  StringView header =
-      StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+  il::Array<char> header{header_length};
+  const std::size_t header_read =
+      fread(header.Data(), sizeof(char), header_length, fp);
+  if (static_cast<il::int_t>(header_read) != header_length || header_length == 0 ||
+      header[header_length - 1] != '\n') {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
 
-  // Read the endianness, the type of the Numpy array, and the byte size
+  // The header is a Python dictionary with the endianness and the type of the
+  // entries, the ordering for multidimensional arrays and the dimensions
   //
-  const il::int_t i4 = il::search("descr", header);
-  if (i4 == -1 || i4 + 12 >= header.size()) {
+  NumpyHeaderReader reader{header.data(), header.data() + header_length};
+  if (!reader.readInfo(numpy_info)) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
-  const bool little_endian = header[i4 + 9] == '<' || header[i4 + 9] == '|';
-  if (!little_endian) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-
-  StringView type_string = header.subview(i4 + 10, header.size());
-  const il::int_t i5 = il::search("'", type_string);
-  numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
-
-  // Read the ordering for multidimensional arrays
-  //
-  const il::int_t i0 = il::search("fortran_order", header);
-  if (i0 == -1 || i0 + 20 > header.size()) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-
-  StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
-  numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
-
-  // Read the dimensions
-  //
-  const il::int_t i1 = il::search("(", header);
-  const il::int_t i2 = il::search(")", header);
-  if (i1 == -1 || i2 == -1 || i2 - i1 <= 1) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-  StringView shape_string = header.subview(i1 + 1, i2);
-  if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
-  il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
-      break;
-    }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
-    ++i;
-  }
 
   status.SetOk();
   return numpy_info;
-- 
2.43.0


From 9aabdd3c6dde83b235d2edf6dcb8c5a2ad08bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 117/208] fix: a NumPy file that can not be written could not
 be loaded

---
 il/io/numpy/numpy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..9dc6a1d 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -177,10 +177,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -233,10 +233,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From 9f7c9e206036eb0a2d672b8e5cf9bb8a3f41927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 118/208] fix: the padding of an Array2D was saved in place of
 its entries in a NumPy file

---
 il/io/numpy/numpy.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 9dc6a1d..e4aae4c 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -148,10 +148,14 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
+    bool is_written = true;
+    for (il::int_t i1 = 0; is_written && i1 < A.size(1); ++i1) {
+      const std::size_t written =
+          std::fwrite(A.data() + i1 * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file);
+      is_written = static_cast<il::int_t>(written) == A.size(0);
+    }
+    if (!is_written) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
-- 
2.43.0


From ee200c53191b0112c80389402956d9db121a7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 119/208] fix: the file was left open when a NumPy file could
 not be saved or loaded

---
 il/io/numpy/numpy.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index e4aae4c..87ce208 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -86,10 +86,7 @@ class SaveHelper<il::Array<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -97,6 +94,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -140,10 +138,7 @@ class SaveHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -156,6 +151,7 @@ class SaveHelper<il::Array2D<T>> {
       is_written = static_cast<il::int_t>(written) == A.size(0);
     }
     if (!is_written) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -195,15 +191,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -212,6 +211,7 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -251,19 +251,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -273,6 +277,7 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From 439161fa98d7c35da78d30694991b4a8172eef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 120/208] fix: the shape in a NumPy file was trusted when it is
 larger than the file

---
 il/io/numpy/numpy.cpp | 25 +++++++++++++++++++++++++
 il/io/numpy/numpy.h   | 19 +++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 21a8914..49ddb30 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -208,6 +208,31 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   return numpy_info;
 }
 
+bool hasNumpyData(const il::Array<il::int_t>& shape, il::int_t element_size,
+                  il::io_t, std::FILE* fp) {
+  const il::int_t max = std::numeric_limits<il::int_t>::max();
+  il::int_t nb_bytes = element_size;
+  bool is_empty = false;
+  for (il::int_t i = 0; i < shape.size(); ++i) {
+    if (shape[i] == 0) {
+      is_empty = true;
+    } else if (nb_bytes > max / shape[i]) {
+      return false;
+    } else {
+      nb_bytes *= shape[i];
+    }
+  }
+
+  const long position = std::ftell(fp);
+  if (is_empty || position < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
+    // Nothing to read or the size of the file is not known
+    return true;
+  }
+  const long end = std::ftell(fp);
+  return std::fseek(fp, position, SEEK_SET) == 0 &&
+         nb_bytes <= static_cast<il::int_t>(end - position);
+}
+
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
   il::String header{};
diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 87ce208..26960b9 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -57,6 +57,11 @@ struct NumpyInfo {
 };
 
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
+
+// Returns false if the file can not hold the entries of an array with the given
+// shape: nothing should be allocated for them.
+bool hasNumpyData(const il::Array<il::int_t>& shape, il::int_t element_size,
+                  il::io_t, std::FILE* fp);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
@@ -208,6 +213,13 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info.shape, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -273,6 +285,13 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info.shape, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From d01d321beef3084b9a0810b6764b7e32104d642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 121/208] fix: an array whose type has no NumPy name was saved
 as a NumPy file without a type

---
 il/io/numpy/numpy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 26960b9..2db1559 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -70,6 +70,11 @@ class SaveHelper<il::Array<T>> {
  public:
   static void save(const il::Array<T>& v, const il::String& filename, il::io_t,
                    il::Status& status) {
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
@@ -122,6 +127,11 @@ class SaveHelper<il::Array2D<T>> {
  public:
   static void save(const il::Array2D<T>& A, const il::String& filename,
                    il::io_t, il::Status& status) {
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
-- 
2.43.0


From cb247764a29f4bd288eca4c99a9349815605fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 122/208] fix: a sparse matrix saved as NumPy files could not
 be loaded

---
 il/io/numpy/numpy.h | 48 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 2db1559..c2e2c53 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -45,6 +45,13 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+#ifdef IL_64_BIT
+template <>
+struct numpyType<il::int_t> {
+  static constexpr const char* value = "i8";
+};
+#endif
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
@@ -333,23 +340,46 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::Status local_status{};
     il::String filename_row = filename;
     filename_row.Append(".row");
-    auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    auto row = il::LoadHelper<il::Array<il::int_t>>::load(filename_row, il::io,
+                                                          local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
-    auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    auto column = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_column, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
-    auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    auto element = il::LoadHelper<il::Array<double>>::load(
+        filename_element, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     const il::int_t n = row.size() - 1;
+    bool is_valid = n >= 0 && row[0] == 0 && row[n] == column.size() &&
+                    row[n] == element.size();
+    for (il::int_t i = 0; is_valid && i < n; ++i) {
+      is_valid = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; is_valid && k < column.size(); ++k) {
+      is_valid = column[k] >= 0 && column[k] < n;
+    }
+    if (!is_valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
+
     status.SetOk();
     return il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
-- 
2.43.0


From 23f8b1c3baf853cd5cafd09da5ad5c8fad99cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 123/208] fix: a file named by a std::string was loaded without
 looking at its format

---
 il/io/io_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..bbd4192 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,7 +116,7 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
-  return il::LoadHelper<T>::load(il_filename, il::io, status);
+  return il::load<T>(il_filename, il::io, status);
 }
 
 template <typename T>
-- 
2.43.0


From 5edc6835478183ab6e0d052c24cf3e299c6af747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:31 +0000
Subject: [PATCH 124/208] fix: the error of a NumPy file could not be checked
 in debug builds

---
 il/io/numpy/numpy.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index c2e2c53..a7c4160 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -105,6 +105,7 @@ class SaveHelper<il::Array<T>> {
     if (!info_status.Ok()) {
       std::fclose(file);
       status = std::move(info_status);
+      status.Rearm();
       return;
     }
 
@@ -162,6 +163,7 @@ class SaveHelper<il::Array2D<T>> {
     if (!info_status.Ok()) {
       std::fclose(file);
       status = std::move(info_status);
+      status.Rearm();
       return;
     }
 
@@ -215,6 +217,7 @@ class LoadHelper<il::Array<T>> {
     if (!info_status.Ok()) {
       std::fclose(file);
       status = std::move(info_status);
+      status.Rearm();
       return v;
     }
 
@@ -282,6 +285,7 @@ class LoadHelper<il::Array2D<T>> {
     if (!info_status.Ok()) {
       std::fclose(file);
       status = std::move(info_status);
+      status.Rearm();
       return v;
     }
 
@@ -344,6 +348,7 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
                                                           local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
+      status.Rearm();
       return il::SparseMatrixCSR<il::int_t, double>{};
     }
 
@@ -353,6 +358,7 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
         filename_column, il::io, local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
+      status.Rearm();
       return il::SparseMatrixCSR<il::int_t, double>{};
     }
 
@@ -362,6 +368,7 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
         filename_element, il::io, local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
+      status.Rearm();
       return il::SparseMatrixCSR<il::int_t, double>{};
     }
 
-- 
2.43.0


From 980404b7a91686a61032db47b8052901e95844f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 125/208] fix: a file that could not be opened was considered
 open when it was destroyed

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..280ae83 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -61,7 +61,7 @@ class File {
 
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
-    : buffer_{buffer_size} {
+    : buffer_{buffer_size}, opened_{false} {
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
-- 
2.43.0


From cc1429291f93bc82c01abe57ff9c745f979173c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 126/208] fix: a file whose close failed was considered open
 when it was destroyed

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 280ae83..ba186b3 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -240,12 +240,12 @@ inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From 860a5a9dc85bf4bf2251407c5c57d7f42071f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 127/208] fix: reading more than the buffer of a file always
 failed and overwrote the bytes that came from the buffer

---
 il/io/File.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index ba186b3..29a3dbf 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -156,10 +156,11 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // element of n bytes is faster than reading n elements of 1 byte. As a
       // consequence, I we try to do that first and if we fail because we are at
       // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      const std::size_t chunk_read =
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
+                     nb_bytes_to_read, 1, file_);
+      nb_bytes_read_ += nb_bytes_to_read;
+      if (chunk_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
-- 
2.43.0


From 6518396d8cb3fd459d03948ac768a2bf878ca317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 128/208] fix: reading or skipping more bytes than an il::int_t
 can count succeeded

---
 il/io/File.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 29a3dbf..7d942cb 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -19,7 +19,9 @@
 #ifndef IL_FILE_H
 #define IL_FILE_H
 
+#include <cstdint>
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Status.h>
@@ -141,6 +143,11 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
   IL_EXPECT_MEDIUM(nb_bytes > 0);
   IL_EXPECT_MEDIUM(nb_objects >= 0);
 
+  if (static_cast<std::size_t>(nb_objects) >
+      static_cast<std::size_t>(PTRDIFF_MAX) / nb_bytes) {
+    status.SetError(il::Error::FilesystemFileNotLongEnough);
+    return;
+  }
   const il::int_t nb_bytes_from_buffer = il::min(
       end_buffer_ - next_, nb_objects * static_cast<il::int_t>(nb_bytes));
   if (nb_bytes_from_buffer > 0) {
@@ -199,7 +206,11 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
 inline void File::Skip(std::size_t nb_bytes, il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
-  const il::int_t n = static_cast<std::size_t>(nb_bytes);
+  if (nb_bytes > static_cast<std::size_t>(PTRDIFF_MAX)) {
+    status.SetError(il::Error::FilesystemFileNotLongEnough);
+    return;
+  }
+  const il::int_t n = static_cast<il::int_t>(nb_bytes);
   const il::int_t nb_bytes_from_buffer = il::min(end_buffer_ - next_, n);
   next_ += nb_bytes_from_buffer;
   nb_bytes_read_ += nb_bytes_from_buffer;
-- 
2.43.0


From dcc0f17cea620de72ffb76ca0389c89ec981d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 129/208] fix: il::File did not compile with current compilers

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 7d942cb..2913d68 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -176,7 +176,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From 6727f3cecac170dcda36028b20d7f6ec853bab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 130/208] fix: reading a malformed TOML file aborted the
 program in debug builds

---
 il/io/toml/toml.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..2ca1717 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -30,8 +30,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
     if (error == nullptr) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -50,8 +50,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
@@ -255,6 +255,7 @@ il::Dynamic TomlParser::parseString(il::io_t, il::StringView& string,
   il::Dynamic ans = parseStringLiteral(delimiter, il::io, string, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return ans;
   }
 
@@ -274,6 +275,7 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       ans.Append(parseEscapeCode(il::io, string, parse_status));
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         return ans;
       }
     } else if (string[0] == delimiter) {
@@ -361,6 +363,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
   string = skipWhitespaceAndComments(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return ans;
   }
 
@@ -379,6 +382,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
   il::Type value_type = parseType(value_string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return ans;
   }
 
@@ -391,6 +395,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       ans = parseValueArray(value_type, il::io, string, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         return ans;
       }
       status.SetOk();
@@ -401,6 +406,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
                              parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         return ans;
       }
       status.SetOk();
@@ -423,6 +429,7 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     il::Dynamic value = parseValue(il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return ans;
     }
 
@@ -438,6 +445,7 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     string = skipWhitespaceAndComments(string, il::io, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return ans;
     }
 
@@ -449,6 +457,7 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     string = skipWhitespaceAndComments(string, il::io, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return ans;
     }
   }
@@ -480,6 +489,7 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
       array.Append(parseArray(il::io, string, parse_status));
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         return ans;
       }
     } else {
@@ -523,6 +533,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                   parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
@@ -549,6 +560,7 @@ void TomlParser::parseKeyValue(il::io_t, il::StringView& string,
   il::String key = parseKey('=', il::io, string, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return;
   }
 
@@ -572,6 +584,7 @@ void TomlParser::parseKeyValue(il::io_t, il::StringView& string,
   il::Dynamic value = parseValue(il::io, string, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return;
   }
 
@@ -599,6 +612,7 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
         key.Append(parseEscapeCode(il::io, string, parse_status));
         if (!parse_status.Ok()) {
           status = std::move(parse_status);
+          status.Rearm();
           return key;
         }
       } else if (string[0] == '"') {
@@ -693,6 +707,7 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
   il::Type type = parseType(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return ans;
   }
 
@@ -719,6 +734,7 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
 
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return ans;
   }
 
@@ -753,6 +769,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
+    return;
   }
 
   il::String full_table_name{};
@@ -762,6 +779,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return;
     }
     if (table_name.isEmpty()) {
@@ -844,6 +862,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
+      status.Rearm();
       return;
     }
     if (table_name.isEmpty()) {
@@ -909,6 +928,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
   checkEndOfLineOrComment(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
+    status.Rearm();
     return;
   }
 
@@ -949,6 +969,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       parseTable(il::io, line, pointer_toml, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         std::fclose(file_);
         return root_toml;
       }
@@ -957,6 +978,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       parseKeyValue(il::io, line, *pointer_toml, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         std::fclose(file_);
         return root_toml;
       }
@@ -965,6 +987,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        status.Rearm();
         return root_toml;
       }
     }
-- 
2.43.0


From 55161094578f3b6e11a0686ce7992a2d5dc728d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 131/208] fix: a TOML file that can not be written could not be
 read

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 2ca1717..09fbeb1 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -942,10 +942,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From 09847b93b9ee568a95fc8bf3ea5c39868520a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 132/208] fix: a TOML file was left open after an error, and a
 failure to read it was taken for its end

---
 il/io/toml/toml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 09fbeb1..3446d36 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -988,11 +988,19 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
         status.Rearm();
+        std::fclose(file_);
         return root_toml;
       }
     }
   }
 
+  if (std::ferror(file_)) {
+    std::fclose(file_);
+    status.SetError(il::Error::FilesystemNoReadAccess);
+    IL_SET_SOURCE(status);
+    return root_toml;
+  }
+
   const int error = std::fclose(file_);
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
-- 
2.43.0


From 6759c727c190aa4c4ee2c29ae2686a926f6a6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 133/208] fix: the lines of a TOML file longer than 200 bytes
 were cut

---
 il/io/toml/toml.cpp | 32 +++++++++++++++++++++++---------
 il/io/toml/toml.h   |  4 ++--
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3446d36..1b77abb 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,37 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+bool TomlParser::readLine(il::io_t, il::StringView& line) {
+  buffer_line_.Resize(0);
+  int c = std::fgetc(file_);
+  while (c != EOF) {
+    buffer_line_.Append(static_cast<char>(c));
+    if (c == '\n') {
+      break;
+    }
+    c = std::fgetc(file_);
+  }
+  if (buffer_line_.size() == 0) {
+    return false;
+  }
+
+  ++line_number_;
+  line = il::StringView{il::StringType::Byte, buffer_line_.data(),
+                        buffer_line_.size()};
+  return true;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine(il::io, string)) {
       status.SetError(il::Error::ParseUnclosedArray);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
-    ++line_number_;
-    string = il::StringView{buffer_line_};
     string.trimPrefix();
   }
 
@@ -954,11 +971,8 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
-    ++line_number_;
-
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
+  il::StringView line{};
+  while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..c2b9b82 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,7 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  il::Array<char> buffer_line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +83,7 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  bool readLine(il::io_t, il::StringView &line);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From a6c32bd1fe952f64a51c932ea3e37c80ed6bd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 134/208] fix: a TOML file that ends in the middle of a value
 was read past the end of its last line

---
 il/io/toml/toml.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 1b77abb..c21bef4 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -81,7 +81,12 @@ il::String TomlParser::currentLine() const {
 
 il::Type TomlParser::parseType(il::StringView string, il::io_t,
                                il::Status& status) {
-  if (string[0] == '"' || string[0] == '\'') {
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseCanNotDetermineType);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return il::Type::Void;
+  } else if (string[0] == '"' || string[0] == '\'') {
     status.SetOk();
     return il::Type::UnicodeString;
   } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+') {
@@ -390,13 +395,7 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
     return ans;
   }
 
-  il::int_t i = 0;
-  while (i < string.size() && (string[i] != ',') && (string[i] != ']') &&
-         (string[i] != '#')) {
-    ++i;
-  }
-  il::StringView value_string = string.subview(0, i);
-  il::Type value_type = parseType(value_string, il::io, parse_status);
+  il::Type value_type = parseType(string, il::io, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
     status.Rearm();
@@ -554,7 +553,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
@@ -615,7 +614,12 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return key;
+  }
 
   il::Status parse_status{};
   if (string[0] == '"') {
@@ -712,7 +716,7 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
   il::Dynamic ans{};
 
   // Check if there is a value
-  if (string.isEmpty() || string[0] == '\n' || string[0] == '#') {
+  if (string.isEmpty() || string.startsWithNewLine() || string[0] == '#') {
     status.SetError(il::Error::ParseValue);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From ca9d97c696c01c183dabb96021e52aae72e1cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 135/208] fix: numbers were read wrongly from a TOML file:
 underscores, zeros, exponents and integers that do not fit

---
 il/io/toml/toml.cpp | 64 ++++++++++++++++++++++-----------------------
 il/io/toml/toml.h   |  1 +
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c21bef4..1a86180 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -16,6 +16,10 @@
 //
 //==============================================================================
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
+
 #include <il/container/string/algorithmString.h>
 #include <il/io/toml/toml.h>
 
@@ -94,14 +98,9 @@ il::Type TomlParser::parseType(il::StringView string, il::io_t,
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
-      ++i;
-    }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    i = skipDigits(string, i);
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
       status.SetOk();
       return il::Type::Double;
     } else {
@@ -145,6 +144,16 @@ il::Dynamic TomlParser::parseBool(il::io_t, il::StringView& string,
   }
 }
 
+il::int_t TomlParser::skipDigits(il::StringView string, il::int_t i) {
+  while (i < string.size() && string.hasDigit(i)) {
+    ++i;
+    if (i + 1 < string.size() && string[i] == '_' && string.hasDigit(i + 1)) {
+      ++i;
+    }
+  }
+  return i;
+}
+
 il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
                                     il::Status& status) {
   // Skip the +/- sign at the beginning of the string
@@ -155,8 +164,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -165,18 +173,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Skip the digits (there should be at least one) before the '.' ot the 'e'
   const il::int_t i_begin_number = i;
-  while (i < string.size() && string.hasDigit(i)) {
-    ++i;
-    if (i < string.size() && string[i] == '_') {
-      ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
-        status.SetError(il::Error::ParseNumber);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return il::Dynamic{};
-      }
-    }
-  }
+  i = skipDigits(string, i);
   if (i == i_begin_number) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
@@ -210,9 +207,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     // Skip the digits (there should be at least one). Note that trailing 0
     // are accepted.
     const il::int_t i_begin_number = i;
-    while (i < string.size() && string.hasDigit(i)) {
-      ++i;
-    }
+    i = skipDigits(string, i);
     if (i == i_begin_number) {
       status.SetError(il::Error::ParseDouble);
       IL_SET_SOURCE(status);
@@ -230,9 +225,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
         ++i;
       }
       const il::int_t i_begin_exponent = i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+      i = skipDigits(string, i);
       if (i == i_begin_exponent) {
         status.SetError(il::Error::ParseDouble);
         IL_SET_SOURCE(status);
@@ -252,18 +245,25 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
 
   if (is_float) {
     status.SetOk();
     string.removePrefix(i);
-    double x = std::atof(view.asCString());
+    double x = std::atof(number.asCString());
     return il::Dynamic{x};
   } else {
+    errno = 0;
+    const long long n = std::strtoll(number.asCString(), nullptr, 10);
+    if (errno == ERANGE || n > std::numeric_limits<il::int_t>::max() ||
+        n < std::numeric_limits<il::int_t>::min()) {
+      status.SetError(il::Error::ParseIntegerOverflow);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::Dynamic{};
+    }
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(view.asCString());
-    return il::Dynamic{n};
+    return il::Dynamic{static_cast<il::int_t>(n)};
   }
 }
 
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index c2b9b82..75cd89c 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -84,6 +84,7 @@ class TomlParser {
 
  private:
   bool readLine(il::io_t, il::StringView &line);
+  static il::int_t skipDigits(il::StringView string, il::int_t i);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 1a0c4bd92bfa489b07b494133e54cf6eccf9f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 136/208] fix: arrays of arrays over several lines, arrays of
 inline tables and unclosed arrays were read wrongly from a TOML file

---
 il/io/toml/toml.cpp | 49 +++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 1a86180..16486f6 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -428,6 +428,17 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       status.SetOk();
       return ans;
     }
+    case il::Type::MapArrayStringToDynamic: {
+      ans = parseObjectArray(il::Type::MapArrayStringToDynamic, '{', il::io,
+                             string, parse_status);
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        status.Rearm();
+        return ans;
+      }
+      status.SetOk();
+      return ans;
+    }
     default:
       il::abort();
       return ans;
@@ -478,9 +489,13 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
+  if (string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
   }
+  string.removePrefix(1);
 
   status.SetOk();
   return ans;
@@ -501,23 +516,31 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
       return ans;
     }
 
-    if (object_type == il::Type::ArrayOfDynamic) {
-      array.Append(parseArray(il::io, string, parse_status));
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        status.Rearm();
-        return ans;
-      }
-    } else {
-      il::abort();
+    IL_EXPECT_FAST(object_type == il::Type::ArrayOfDynamic ||
+                   object_type == il::Type::MapArrayStringToDynamic);
+    array.Append(parseValue(il::io, string, parse_status));
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      status.Rearm();
+      return ans;
     }
 
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      status.Rearm();
+      return ans;
+    }
     if (string.isEmpty() || (string[0] != ',')) {
       break;
     }
     string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      status.Rearm();
+      return ans;
+    }
   }
 
   if (string.isEmpty() || (string[0] != ']')) {
-- 
2.43.0


From 22ed8ac4779a5a3d0dbc4a0705f456a9848c4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 137/208] fix: an empty inline table was not accepted in a TOML
 file

---
 il/io/toml/toml.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 16486f6..f661f38 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -557,6 +557,17 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+  il::StringView inside = string;
+  inside.removePrefix(1);
+  inside = il::removeWhitespaceLeft(inside);
+  if (!inside.isEmpty() && inside[0] == '}') {
+    string = inside;
+    string.removePrefix(1);
+    string = il::removeWhitespaceLeft(string);
+    status.SetOk();
+    return ans;
+  }
+
   do {
     string.removePrefix(1);
     if (string.isEmpty()) {
-- 
2.43.0


From 7a0c62b0a230948f0b430bdfe066e607c934f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 138/208] fix: deeply nested values in a TOML file overflowed
 the stack

---
 il/io/toml/toml.cpp | 15 ++++++++++++---
 il/io/toml/toml.h   |  5 +++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f661f38..614038a 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -778,10 +778,18 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
       ans = parseString(il::io, string, parse_status);
       break;
     case il::Type::ArrayOfDynamic:
-      ans = parseArray(il::io, string, parse_status);
-      break;
     case il::Type::MapArrayStringToDynamic:
-      ans = parseInlineTable(il::io, string, parse_status);
+      if (depth_ == max_depth_) {
+        status.SetError(il::Error::ParseValue);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      ++depth_;
+      ans = type == il::Type::ArrayOfDynamic
+                ? parseArray(il::io, string, parse_status)
+                : parseInlineTable(il::io, string, parse_status);
+      --depth_;
       break;
     default:
       IL_UNREACHABLE;
@@ -1009,6 +1017,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  depth_ = 0;
   il::StringView line{};
   while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 75cd89c..e387a5f 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -37,9 +37,14 @@
 namespace il {
 
 class TomlParser {
+ public:
+  // Largest number of arrays and tables nested in one another
+  static const il::int_t max_depth_ = 256;
+
  private:
   il::Array<char> buffer_line_;
   il::int_t line_number_;
+  il::int_t depth_;
   std::FILE *file_;
 
  public:
-- 
2.43.0


From fb47552a854f83c9513a571445583452752c0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 139/208] fix: strings with characters that are not ASCII were
 read wrongly from a TOML file

---
 il/io/toml/toml.cpp | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 614038a..0cd9449 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -306,9 +306,19 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       status.SetOk();
       return ans;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
-      ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      // The characters up to the next escape code or the end of the string
+      il::int_t n = 1;
+      while (n < string.size() && string[n] != delimiter &&
+             (delimiter != '"' || string[n] != '\\')) {
+        ++n;
+      }
+      if (!il::isUtf8(string.data(), n)) {
+        break;
+      }
+      ans.Append(il::isAscii(string.data(), n) ? il::StringType::Ascii
+                                               : il::StringType::Utf8,
+                 string.data(), n);
+      string.removePrefix(n);
     }
   }
 
@@ -356,11 +366,27 @@ il::String TomlParser::parseEscapeCode(il::io_t, il::StringView& string,
       break;
     case 'u':
     case 'U': {
-      status.SetError(il::Error::ParseString);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
+      const il::int_t nb_digits = string[i] == 'u' ? 4 : 8;
+      unsigned int rune = 0;
+      il::int_t j = i + 1;
+      while (j < string.size() && j <= i + nb_digits &&
+             string.hasHexaDecimal(j)) {
+        const char c = string[j];
+        const int digit = c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;
+        rune = 16 * rune + static_cast<unsigned int>(digit);
+        ++j;
+      }
+      if (j != i + 1 + nb_digits || !il::isRune(static_cast<int>(rune))) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      string.removePrefix(j);
+      ans.Append(static_cast<int>(rune));
+      status.SetOk();
       return ans;
-    } break;
+    }
     default:
       status.SetError(il::Error::ParseString);
       IL_SET_SOURCE(status);
-- 
2.43.0


From 98720f1f3760296438031f17d795efde574b4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 140/208] fix: the closing quote of a literal key was kept, and
 quoted keys that are not ASCII stopped the program

---
 il/io/toml/toml.cpp | 58 ++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 0cd9449..95a2175 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -681,44 +681,24 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     return key;
   }
 
-  il::Status parse_status{};
-  if (string[0] == '"') {
-    //////////////////////////
-    // We have a key in a ".."
-    //////////////////////////
-    string.removePrefix(1);
-    while (string.size() > 0) {
-      if (string[0] == '\\') {
-        il::Status parse_status{};
-        key.Append(parseEscapeCode(il::io, string, parse_status));
-        if (!parse_status.Ok()) {
-          status = std::move(parse_status);
-          status.Rearm();
-          return key;
-        }
-      } else if (string[0] == '"') {
-        string.removePrefix(1);
-        string = il::removeWhitespaceLeft(string);
-        status.SetOk();
-        return key;
-      } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
-      }
+  if (string[0] == '"' || string[0] == '\'') {
+    ////////////////////////////////////
+    // We have a key in a ".." or a '..'
+    ////////////////////////////////////
+    il::Status parse_status{};
+    key = parseStringLiteral(string[0], il::io, string, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      status.Rearm();
+      return key;
     }
-    status.SetError(il::Error::ParseString);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
+    status.SetOk();
     return key;
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
+    //////////////////////////
+    // We have a bare key ->..<-
+    //////////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
@@ -765,7 +745,15 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
       }
     }
 
-    key = il::String{il::StringType::Byte, key_string.data(), j};
+    if (!il::isUtf8(key_string.data(), j)) {
+      status.SetError(il::Error::ParseKey);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return key;
+    }
+    key = il::String{il::isAscii(key_string.data(), j) ? il::StringType::Ascii
+                                                       : il::StringType::Utf8,
+                     key_string.data(), j};
     status.SetOk();
     return key;
   }
-- 
2.43.0


From d45ec959cbfb9fe1b24773e15c01745eeba8926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 141/208] fix: malformed table headers and redefined tables
 were accepted or stopped the program when reading a TOML file

---
 il/io/toml/toml.cpp | 237 ++++++++++++++++++++------------------------
 il/io/toml/toml.h   |   8 ++
 2 files changed, 116 insertions(+), 129 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 95a2175..c9ec370 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -839,160 +839,118 @@ void TomlParser::parseTable(il::io_t, il::StringView& string,
   }
 }
 
-void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
-                                  il::MapArray<il::String, il::Dynamic>*& toml,
-                                  il::Status& status) {
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
-  }
-
-  il::String full_table_name{};
-  bool inserted = false;
-  while (!string.isEmpty() && (string[0] != ']')) {
-    il::Status parse_status{};
-    il::String table_name = parseKey('@', il::io, string, parse_status);
+void TomlParser::parseTableKeys(il::io_t, il::StringView& string,
+                                il::Array<il::String>& keys,
+                                il::Status& status) {
+  il::Status parse_status{};
+  while (true) {
+    il::String key = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
       status.Rearm();
       return;
     }
-    if (table_name.isEmpty()) {
+    if (keys.size() == max_depth_) {
       status.SetError(il::Error::ParseTable);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return;
     }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
-
-    il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      if (toml->value(i).is<il::MapArray<il::String, il::Dynamic>>()) {
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-      } else if (toml->value(i).is<il::Array<il::Dynamic>>()) {
-        if (toml->value(i).as<il::Array<il::Dynamic>>().size() > 0 &&
-            toml->value(i)
-                .as<il::Array<il::Dynamic>>()
-                .back()
-                .is<il::MapArray<il::String, il::Dynamic>>()) {
-          toml = &(toml->Value(i)
-                       .As<il::Array<il::Dynamic>>()
-                       .Back()
-                       .As<il::MapArray<il::String, il::Dynamic>>());
-        } else {
-          status.SetError(il::Error::ParseDuplicateKey);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
-      } else {
-        status.SetError(il::Error::ParseDuplicateKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return;
-      }
-    } else {
-      inserted = true;
-      toml->Set(table_name,
-                il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                i);
-      toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-    }
+    keys.Append(std::move(key));
 
     string = il::removeWhitespaceLeft(string);
-    while (!string.isEmpty() && string[0] == '.') {
-      string.removePrefix(1);
+    if (string.isEmpty() || string[0] != '.') {
+      break;
     }
-    string = il::removeWhitespaceLeft(string);
+    string.removePrefix(1);
   }
 
-  // TODO: One should check the redefinition of a table (line 1680)
-  IL_UNUSED(inserted);
-
-  string.removePrefix(1);
-  string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
+  if (string.isEmpty() || string[0] != ']') {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return;
   }
+  string.removePrefix(1);
   status.SetOk();
 }
 
-void TomlParser::parseTableArray(il::io_t, il::StringView& string,
-                                 il::MapArray<il::String, il::Dynamic>*& toml,
-                                 il::Status& status) {
-  string.removePrefix(1);
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
+void TomlParser::enterTable(const il::String& key, bool last, il::io_t,
+                            il::String& path,
+                            il::MapArray<il::String, il::Dynamic>*& toml,
+                            il::Status& status) {
+  path.Append(il::toString(key.size()));
+  path.Append(':');
+  path.Append(key);
+
+  il::spot_t i = toml->search(key);
+  il::spot_t j = headers_.search(path);
+  if (!toml->found(i)) {
+    toml->Set(key, il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
+              i);
+    headers_.Set(path, last ? Header::Table : Header::ImplicitTable, il::io, j);
+  } else if (!headers_.found(j) ||
+             (last && headers_.value(j) != Header::ImplicitTable)) {
+    // It is a value, or it has already been defined
+    status.SetError(il::Error::ParseDuplicateKey);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
     return;
+  } else if (headers_.value(j) == Header::TableArray) {
+    il::Array<il::Dynamic>& array =
+        toml->Value(i).As<il::Array<il::Dynamic>>();
+    path.Append('#');
+    path.Append(il::toString(array.size()));
+    toml = &(array.Back().As<il::MapArray<il::String, il::Dynamic>>());
+    status.SetOk();
+    return;
+  } else if (last) {
+    headers_.Value(j) = Header::Table;
   }
+  toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+  status.SetOk();
+}
 
-  il::String full_table_name{};
-  while (!string.isEmpty() && (string[0] != ']')) {
-    il::Status parse_status{};
-    il::String table_name = parseKey('@', il::io, string, parse_status);
+void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
+                                  il::MapArray<il::String, il::Dynamic>*& toml,
+                                  il::Status& status) {
+  il::Status parse_status{};
+  il::Array<il::String> keys{};
+  parseTableKeys(il::io, string, keys, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    status.Rearm();
+    return;
+  }
+
+  il::String path{};
+  for (il::int_t k = 0; k < keys.size(); ++k) {
+    enterTable(keys[k], k + 1 == keys.size(), il::io, path, toml, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
       status.Rearm();
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return;
-    }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
-
-    string = il::removeWhitespaceLeft(string);
-    il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      il::Dynamic& b = toml->Value(i);
-      if (!string.isEmpty() && string[0] == ']') {
-        if (!b.is<il::Array<il::Dynamic>>()) {
-          status.SetError(il::Error::ParseTable);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
-        il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
-        v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
-      }
-    } else {
-      if (!string.isEmpty() && string[0] == ']') {
-        toml->Set(table_name, il::Dynamic{il::Array<il::Dynamic>{}}, il::io, i);
-        toml->Value(i).As<il::Array<il::Dynamic>>().Append(
-            il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(toml->Value(i)
-                     .As<il::Array<il::Dynamic>>()[0]
-                     .As<il::MapArray<il::String, il::Dynamic>>());
-      } else {
-        toml->Set(table_name,
-                  il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                  i);
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-      }
-    }
   }
 
-  if (string.isEmpty()) {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
+  string = il::removeWhitespaceLeft(string);
+  checkEndOfLineOrComment(string, il::io, status);
+}
+
+void TomlParser::parseTableArray(il::io_t, il::StringView& string,
+                                 il::MapArray<il::String, il::Dynamic>*& toml,
+                                 il::Status& status) {
+  string.removePrefix(1);
+
+  il::Status parse_status{};
+  il::Array<il::String> keys{};
+  parseTableKeys(il::io, string, keys, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    status.Rearm();
     return;
   }
-  string.removePrefix(1);
-  if (string.isEmpty()) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -1000,17 +958,37 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
   }
   string.removePrefix(1);
 
-  string = il::removeWhitespaceLeft(string);
-  il::Status parse_status{};
-  checkEndOfLineOrComment(string, il::io, parse_status);
-  if (!parse_status.Ok()) {
-    status = std::move(parse_status);
-    status.Rearm();
+  il::String path{};
+  for (il::int_t k = 0; k + 1 < keys.size(); ++k) {
+    enterTable(keys[k], false, il::io, path, toml, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      status.Rearm();
+      return;
+    }
+  }
+
+  const il::String& key = keys.back();
+  path.Append(il::toString(key.size()));
+  path.Append(':');
+  path.Append(key);
+  il::spot_t i = toml->search(key);
+  il::spot_t j = headers_.search(path);
+  if (!toml->found(i)) {
+    toml->Set(key, il::Dynamic{il::Array<il::Dynamic>{}}, il::io, i);
+    headers_.Set(path, Header::TableArray, il::io, j);
+  } else if (!headers_.found(j) || headers_.value(j) != Header::TableArray) {
+    status.SetError(il::Error::ParseDuplicateKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
     return;
   }
+  il::Array<il::Dynamic>& array = toml->Value(i).As<il::Array<il::Dynamic>>();
+  array.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+  toml = &(array.Back().As<il::MapArray<il::String, il::Dynamic>>());
 
-  status.SetOk();
-  return;
+  string = il::removeWhitespaceLeft(string);
+  checkEndOfLineOrComment(string, il::io, status);
 }
 
 il::MapArray<il::String, il::Dynamic> TomlParser::parse(
@@ -1032,6 +1010,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
 
   line_number_ = 0;
   depth_ = 0;
+  headers_ = il::Map<il::String, Header>{};
   il::StringView line{};
   while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index e387a5f..d19afad 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -45,6 +45,9 @@ class TomlParser {
   il::Array<char> buffer_line_;
   il::int_t line_number_;
   il::int_t depth_;
+  // The tables defined by a header, with their path
+  enum class Header { ImplicitTable, Table, TableArray };
+  il::Map<il::String, Header> headers_;
   std::FILE *file_;
 
  public:
@@ -88,6 +91,11 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  void parseTableKeys(il::io_t, il::StringView &string,
+                      il::Array<il::String> &keys, il::Status &status);
+  void enterTable(const il::String &key, bool last, il::io_t, il::String &path,
+                  il::MapArray<il::String, il::Dynamic> *&toml,
+                  il::Status &status);
   bool readLine(il::io_t, il::StringView &line);
   static il::int_t skipDigits(il::StringView string, il::int_t i);
   static bool containsDigit(char c);
-- 
2.43.0


From e4fcc54462ba71e969bea3761d1901deeba50284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 142/208] fix: values saved to a TOML file were lost: digits of
 floats, quotes in strings, arrays of tables, values without a TOML form

---
 il/io/toml/toml.h | 339 ++++++++++++++++++++++++++++++----------------
 1 file changed, 223 insertions(+), 116 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index d19afad..3ebcf8c 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -19,6 +19,9 @@
 #ifndef IL_TOML_H
 #define IL_TOML_H
 
+#include <cmath>
+#include <cstdio>
+
 #include <il/Dynamic.h>
 #include <il/Status.h>
 #include <il/core.h>
@@ -101,56 +104,222 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
-inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
+inline void save_text(const char *text, il::io_t, std::FILE *file,
+                      il::Status &status) {
+  const int error = std::fputs(text, file);
+  if (error < 0) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  status.SetOk();
+}
+
+inline void save_string(const il::String &string, il::io_t, std::FILE *file,
+                        il::Status &status) {
+  if (!il::isUtf8(string.data(), string.size())) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    return;
+  }
+
+  const char *hexa = "0123456789ABCDEF";
+  il::String text{};
+  text.Append('"');
+  il::int_t begin = 0;
+  for (il::int_t i = 0; i <= string.size(); ++i) {
+    const bool is_end = i == string.size();
+    const unsigned char c =
+        is_end ? '"' : static_cast<unsigned char>(string.data()[i]);
+    if (c != '"' && c != '\\' && c >= 0x20 && c != 0x7F) {
+      continue;
+    }
+    text.Append(il::StringType::Utf8, string.data() + begin, i - begin);
+    begin = i + 1;
+    if (is_end) {
+      text.Append('"');
+    } else if (c == '"' || c == '\\') {
+      text.Append('\\');
+      text.Append(static_cast<char>(c));
+    } else {
+      text.Append("\\u00");
+      text.Append(hexa[c / 16]);
+      text.Append(hexa[c % 16]);
+    }
+  }
+  il::save_text(text.asCString(), il::io, file, status);
+}
+
+inline void save_array(const il::Array<il::Dynamic> &array, il::int_t depth,
+                       il::io_t, std::FILE *file, il::Status &status);
+
+template <typename M>
+inline void save_table(const M &table, il::int_t depth, il::io_t,
+                       std::FILE *file, il::Status &status);
+
+// Save a value which is nested in depth arrays and inline tables
+inline void save_value(const il::Dynamic &value, il::int_t depth, il::io_t,
                        std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
-  for (il::int_t j = 0; j < array.size(); ++j) {
-    if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
+  switch (value.type()) {
+    case il::Type::Bool:
+      il::save_text(value.to<bool>() ? "true" : "false", il::io, file, status);
+      return;
+    case il::Type::Integer: {
+      char text[32];
+      std::snprintf(text, sizeof(text), "%td", value.to<il::int_t>());
+      il::save_text(text, il::io, file, status);
+      return;
     }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
-        }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
-        IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
+    case il::Type::Double: {
+      const double x = value.to<double>();
+      if (!std::isfinite(x)) {
+        break;
+      }
+      char text[32];
+      std::snprintf(text, sizeof(text), "%.16e", x);
+      il::save_text(text, il::io, file, status);
+      return;
+    }
+    case il::Type::UnicodeString:
+      il::save_string(value.as<il::String>(), il::io, file, status);
+      return;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      il::Array<il::Dynamic> array{};
+      for (il::int_t i = 0; i < v.size(); ++i) {
+        array.Append(il::Dynamic{v[i]});
+      }
+      il::save_array(array, depth, il::io, file, status);
+      return;
+    }
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      il::Array<il::Dynamic> array{};
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        il::Array<il::Dynamic> row{};
+        for (il::int_t j = 0; j < v.size(1); ++j) {
+          row.Append(il::Dynamic{v(i, j)});
         }
-      } break;
-      default:
-        IL_UNREACHABLE;
+        array.Append(il::Dynamic{std::move(row)});
+      }
+      il::save_array(array, depth, il::io, file, status);
+      return;
     }
+    case il::Type::ArrayOfDynamic:
+      il::save_array(value.as<il::Array<il::Dynamic>>(), depth, il::io, file,
+                     status);
+      return;
+    case il::Type::MapArrayStringToDynamic:
+      il::save_table(value.as<il::MapArray<il::String, il::Dynamic>>(), depth,
+                     il::io, file, status);
+      return;
+    case il::Type::MapStringToDynamic:
+      il::save_table(value.as<il::Map<il::String, il::Dynamic>>(), depth,
+                     il::io, file, status);
+      return;
+    default:
+      break;
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
-  status.SetOk();
+  // The format has no such value
+  status.SetError(il::Error::Unimplemented);
+  IL_SET_SOURCE(status);
+}
+
+// The elements of an array need to have the same type in the format
+inline il::Type save_type(const il::Dynamic &value) {
+  switch (value.type()) {
+    case il::Type::ArrayOfDouble:
+    case il::Type::Array2DOfDouble:
+      return il::Type::ArrayOfDynamic;
+    case il::Type::MapStringToDynamic:
+      return il::Type::MapArrayStringToDynamic;
+    default:
+      return value.type();
+  }
+}
+
+inline void save_array(const il::Array<il::Dynamic> &array, il::int_t depth,
+                       il::io_t, std::FILE *file, il::Status &status) {
+  if (depth == il::TomlParser::max_depth_) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  il::save_text("[ ", il::io, file, status);
+  for (il::int_t j = 0; j < array.size(); ++j) {
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    if (il::save_type(array[j]) != il::save_type(array[0])) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+    il::save_value(array[j], depth + 1, il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_text(j + 1 < array.size() ? ", " : " ", il::io, file, status);
+  }
+  if (!status.Ok()) {
+    status.Rearm();
+    return;
+  }
+  il::save_text("]", il::io, file, status);
+}
+
+inline void save_key(const il::String &key, il::io_t, std::FILE *file,
+                     il::Status &status) {
+  bool is_bare = !key.isEmpty();
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.data()[i];
+    is_bare = is_bare && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+                          (c >= '0' && c <= '9') || c == '_' || c == '-');
+  }
+  if (is_bare) {
+    il::save_text(key.asCString(), il::io, file, status);
+  } else {
+    il::save_string(key, il::io, file, status);
+  }
+}
+
+// Save a table as an inline table
+template <typename M>
+inline void save_table(const M &table, il::int_t depth, il::io_t,
+                       std::FILE *file, il::Status &status) {
+  if (depth == il::TomlParser::max_depth_) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    return;
+  }
+  const char *separator = "{ ";
+  for (il::spot_t i = table.spotBegin(); i != table.spotEnd();
+       i = table.next(i)) {
+    il::save_text(separator, il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_key(table.key(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_text(" = ", il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_value(table.value(i), depth + 1, il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    separator = ", ";
+  }
+  il::save_text(separator[0] == '{' ? "{ }" : " }", il::io, file, status);
 }
 
 template <typename M>
@@ -164,79 +333,17 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
+      il::save_key(toml.key(i), il::io, file, status);
+      if (!status.Ok()) {
+        status.Rearm();
+        return;
+      }
       error = std::fputs(" = ", file);
       if (error == EOF) return;
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            error = std::fputs("true", file);
-          } else {
-            error = std::fputs("false", file);
-          }
-          if (error == EOF) return;
-          break;
-        case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
-          break;
-        case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
-          if (error == EOF) return;
-          break;
-        case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
-            if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
-              }
-            }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
-            if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
-        } break;
-        default:
-          IL_UNREACHABLE;
+      il::save_value(value, 0, il::io, file, status);
+      if (!status.Ok()) {
+        status.Rearm();
+        return;
       }
       error = std::fputs("\n", file);
       if (error == EOF) return;
-- 
2.43.0


From 1ebc7e2e14e3dbd444c615c9e30c25ea6402985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 143/208] fix: tables were saved to a TOML file under a wrong
 name, failures to write were not reported, and il::Map could not be saved

---
 il/io/toml/toml.h | 121 +++++++++++++++++++++++++---------------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 3ebcf8c..8b6bebb 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -322,78 +322,85 @@ inline void save_table(const M &table, il::int_t depth, il::io_t,
   il::save_text(separator[0] == '{' ? "{ }" : " }", il::io, file, status);
 }
 
+// Save a table, whose name is made of the keys in path. The values are saved
+// before the tables, as they would otherwise belong to the last table.
 template <typename M>
-inline void save_aux(const M &toml, const il::String &name, il::io_t,
+inline void save_aux(const M &toml, il::Array<il::String> &path, il::io_t,
                      std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    if (il::save_type(value) == il::Type::MapArrayStringToDynamic) {
+      continue;
+    }
+    il::save_key(toml.key(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_text(" = ", il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_value(value, 0, il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    il::save_text("\n", il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
 
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
-    const il::Type type = value.type();
-    if (type != il::Type::MapArrayStringToDynamic &&
-        type != il::Type::MapStringToDynamic) {
-      il::save_key(toml.key(i), il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
-      }
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
-      il::save_value(value, 0, il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
-      }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
-    } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
-      }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
+    if (il::save_type(value) != il::Type::MapArrayStringToDynamic) {
+      continue;
+    }
+    if (path.size() == il::TomlParser::max_depth_) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+    path.Append(toml.key(i));
+    for (il::int_t k = 0; k < path.size(); ++k) {
+      il::save_text(k == 0 ? "\n[" : ".", il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
-    } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
-      }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
+      il::save_key(path[k], il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
     }
+    il::save_text("]\n", il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    if (value.type() == il::Type::MapArrayStringToDynamic) {
+      il::save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), path,
+                   il::io, file, status);
+    } else {
+      il::save_aux(value.as<il::Map<il::String, il::Dynamic>>(), path, il::io,
+                   file, status);
+    }
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+    path.Resize(path.size() - 1);
   }
 
   status.SetOk();
-  return;
 }
 
 template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
  public:
   static void save(const il::Map<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
@@ -413,9 +420,10 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
+    il::Array<il::String> path{};
+    save_aux(toml, path, il::io, file, status);
     if (!status.Ok()) {
+      std::fclose(file);
       status.Rearm();
       return;
     }
@@ -452,9 +460,10 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
+    il::Array<il::String> path{};
+    save_aux(toml, path, il::io, file, status);
     if (!status.Ok()) {
+      std::fclose(file);
       status.Rearm();
       return;
     }
-- 
2.43.0


From ca5377b6455f723a8290d0a9daeed0b7ae90f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 144/208] fix: the sizes of a product of two transposed
 matrices were not checked

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..b95012e 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -677,6 +677,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -730,6 +734,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -785,6 +793,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -855,6 +867,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -923,6 +939,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -976,6 +996,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1031,6 +1055,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1101,6 +1129,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From d7e45ec9ea59eceec36e169c346679e865d087e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 145/208] fix: il::blas with il::Dot::Star on a row-major
 matrix of double and il::dot with il::Dot::Transpose on complex vectors
 stopped the program

---
 il/linearAlgebra/dense/blas/blas.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index b95012e..24551bd 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -215,6 +215,7 @@ inline std::complex<float> dot(il::ArrayView<std::complex<float>> x, il::Dot op,
       return ans;
     }
     case il::Dot::None:
+    case il::Dot::Transpose:
       return il::dot(x, y);
     default:
       IL_UNREACHABLE;
@@ -241,6 +242,7 @@ inline std::complex<double> dot(il::ArrayView<std::complex<double>> x,
       return ans;
     }
     case il::Dot::None:
+    case il::Dot::Transpose:
       return il::dot(x, y);
     default:
       IL_UNREACHABLE;
@@ -267,6 +269,7 @@ inline std::complex<float> dot(il::ArrayView<std::complex<float>> x,
       return std::conj(ans);
     }
     case il::Dot::None:
+    case il::Dot::Transpose:
       return il::dot(x, y);
     default:
       IL_UNREACHABLE;
@@ -293,6 +296,7 @@ inline std::complex<double> dot(il::ArrayView<std::complex<double>> x,
       return std::conj(ans);
     }
     case il::Dot::None:
+    case il::Dot::Transpose:
       return il::dot(x, y);
     default:
       IL_UNREACHABLE;
@@ -547,6 +551,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 7dcdaec7f9ad37c6774f02cff647be6f2ccd61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 146/208] fix: products with an empty matrix left the result
 uninitialised or stopped the program

---
 il/linearAlgebra/dense/blas/blas.h | 170 +++++++++++++++++++++++------
 1 file changed, 138 insertions(+), 32 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 24551bd..eecdefd 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,24 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// The leading dimension given to BLAS: it has to be at least 1 and at least the
+// size of a line, even when the matrix is empty
+
+inline IL_CBLAS_INT blas_leading_dimension(il::int_t stride, il::int_t n) {
+  const il::int_t ld = stride < n ? n : stride;
+  return static_cast<IL_CBLAS_INT>(ld < 1 ? 1 : ld);
+}
+
+// y = beta * y, which is what is left of y = alpha * A.x + beta * y when A is
+// empty
+
+template <typename T>
+void blas_scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = (beta == T{0}) ? T{0} : beta * y[i];
+  }
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -366,13 +384,18 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -401,13 +424,18 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -438,13 +466,18 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -481,13 +514,18 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -523,13 +561,18 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -558,13 +601,18 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -595,13 +643,18 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -638,13 +691,18 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
   IL_EXPECT_FAST(x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -687,6 +745,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -699,9 +760,12 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(1), B.size(0));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(1), C.size(0));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -744,6 +808,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -756,9 +823,12 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(1), B.size(0));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(1), C.size(0));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -803,6 +873,9 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -815,9 +888,12 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(1), B.size(0));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(1), C.size(0));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -877,6 +953,9 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -889,9 +968,12 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(1), A.size(0));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(1), B.size(0));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(1), C.size(0));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -949,6 +1031,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -961,9 +1046,12 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(0), B.size(1));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(0), C.size(1));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1006,6 +1094,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1018,9 +1109,12 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(0), B.size(1));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(0), C.size(1));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1065,6 +1159,9 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1077,9 +1174,12 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(0), B.size(1));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(0), C.size(1));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -1139,6 +1239,9 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
+  if (C.size(0) == 0 || C.size(1) == 0) {
+    return;
+  }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
 
@@ -1151,9 +1254,12 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda =
+      il::blas_leading_dimension(A.stride(0), A.size(1));
+  const IL_CBLAS_INT ldb =
+      il::blas_leading_dimension(B.stride(0), B.size(1));
+  const IL_CBLAS_INT ldc =
+      il::blas_leading_dimension(C.stride(0), C.size(1));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
-- 
2.43.0


From 37c2fb91f2b1b87eadc9a2cf1da91eaf4c9e36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 147/208] fix: the norm of a tridiagonal matrix of size 0 or 1
 read elements outside of the matrix

---
 il/linearAlgebra/dense/norm.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..01ee11b 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -148,14 +148,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
 
   switch (norm_type) {
     case Norm::Linf: {
-      il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
-      }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
-      for (il::int_t i = 0; i < sum_row.size(); ++i) {
-        ans = il::max(ans, sum_row[i]);
+      for (il::int_t i = 0; i < n; ++i) {
+        T sum_row = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row += il::abs(A(i, 1));
+        }
+        ans = il::max(ans, sum_row);
       }
     } break;
     default:
-- 
2.43.0


From 38ff8317c06efbd6587f876dd90a5f8fbb6b4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 148/208] fix: the product of two sparse matrices did not
 compile and shifted memory beyond the column indices

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index e14e4bd..df4ad2d 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -50,51 +50,51 @@ inline il::SparseMatrixCSR<int, double> dot(
   il::Array<int> row{m + 1};
   MKL_INT request = 1;
 
-  int *A_row_data = A.rowData();
-  int *A_column_data = A.columnData();
+  int *A_row_data = A.RowData();
+  int *A_column_data = A.ColumnData();
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
-  int *B_row_data = B.rowData();
-  int *B_column_data = B.columnData();
+  int *B_row_data = B.RowData();
+  int *B_column_data = B.ColumnData();
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       ++B_column_data[i];
     }
   }
 
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   element.Resize(row[m] - 1);
   column.Resize(row[m] - 1);
   request = 2;
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   for (int i = 0; i <= A.size(0); ++i) {
     --A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     --A_column_data[i];
   }
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       --B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       --B_column_data[i];
     }
   }
-- 
2.43.0


From 8992e71705288eef554bbca20848ab12873bda26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 149/208] fix: il::SparseMatrixBlas could not be constructed,
 and a copy of it would have been destroyed twice

---
 .../sparse/blas/SparseMatrixBlas.h            | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..dcbc682 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -33,6 +33,8 @@ class SparseMatrixBlas {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, T> &A);
+  SparseMatrixBlas(const SparseMatrixBlas &) = delete;
+  SparseMatrixBlas &operator=(const SparseMatrixBlas &) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
@@ -44,10 +46,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -87,6 +89,8 @@ class SparseMatrixBlas<Index, float> {
 
  public:
   SparseMatrixBlas(il::io_t, il::SparseMatrixCSR<Index, float> &A);
+  SparseMatrixBlas(const SparseMatrixBlas &) = delete;
+  SparseMatrixBlas &operator=(const SparseMatrixBlas &) = delete;
   ~SparseMatrixBlas();
   void setNbMatrixVector(il::int_t n);
   sparse_matrix_t handle();
@@ -98,10 +102,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From 429de5ff5f47314c6d64e407732455356bdeb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 150/208] fix: il::SparseMatrixCSR could not be constructed
 from lists of columns with an Index that is not il::int_t, nor from elements
 that are not double

---
 il/container/2d/SparseMatrixCSR.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 8f8e899..331320a 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -43,8 +43,8 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
-                  il::Array<Index> row, il::Array<double> element);
-  template <Index n>
+                  il::Array<Index> row, il::Array<T> element);
+  template <il::int_t n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
   SparseMatrixCSR(il::int_t n,
@@ -89,7 +89,7 @@ template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
                                            il::Array<Index> row,
-                                           il::Array<double> element)
+                                           il::Array<T> element)
     : n0_{height},
       n1_{width},
       element_{std::move(element)},
@@ -99,14 +99,16 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
 }
 
 template <typename Index, typename T>
-template <Index n>
+template <il::int_t n>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     il::int_t width, il::int_t height,
     const il::Array<il::SmallArray<Index, n>> &column)
-    : n1_{width}, n0_{height}, element_{}, column_{}, row_{height + 1} {
+    : n0_{height}, n1_{width}, element_{}, column_{}, row_{height + 1} {
+  IL_EXPECT_FAST(column.size() == height);
+
   Index nb_nonzero = 0;
   for (Index i = 0; i < column.size(); ++i) {
-    nb_nonzero += column[i].size();
+    nb_nonzero += static_cast<Index>(column[i].size());
   }
 
   element_.Resize(nb_nonzero);
@@ -116,7 +118,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     for (Index k = 0; k < column[i].size(); ++k) {
       column_[row_[i] + k] = column[i][k];
     }
-    row_[i + 1] = row_[i] + column[i].size();
+    row_[i + 1] = row_[i] + static_cast<Index>(column[i].size());
   }
 }
 
-- 
2.43.0


From 39d4968fafd8e80140d4d985ada49c4c32da7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 151/208] fix: a sparse matrix of size 0 could not be assembled

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 331320a..305e806 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -146,7 +146,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 2de18c2374a80ab1cc804f97f03cf408937a73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 152/208] fix: the norm of a rectangular sparse matrix expected
 the scalings of rows and columns to be swapped

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 305e806..7f9258f 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -329,8 +329,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From 7a9b23f31f1ec6ef282ca11c81d23591c8e00b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 153/208] fix: il::Pardiso::SolveIterative stopped at 2 digits,
 and returned an uninitialised solution when the iterations did not converge

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..d1f03bb 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -368,13 +368,16 @@ inline il::Array<double> Pardiso::SolveIterative(
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
   IL_EXPECT_FAST(y.size() == n_);
-  il::Array<double> x{n_};
+  il::Array<double> x{n_, 0.0};
 
   const il::int_t old_solver = pardiso_iparm_[3];
   // 6 digits of accuracy using LU decomposition
-  pardiso_iparm_[3] = 21;
+  pardiso_iparm_[3] = 61;
 
-  const il::int_t phase = 33;
+  // The iterative solver needs the numerical factorization phase: when the
+  // iterations preconditionned by the previous factorization don't converge,
+  // the matrix is factorized again.
+  const il::int_t phase = 23;
   il::int_t error = 0;
   il::int_t i_dummy;
   PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
-- 
2.43.0


From 6c8057e598579e80395b7af7098f8a6ec9fa6203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 154/208] fix: il::GmresIlu0 never stopped after its maximum
 number of iterations

---
 il/linearAlgebra/sparse/factorization/GmresIlu0.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/GmresIlu0.h b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
index ffff2b9..4f854a3 100644
--- a/il/linearAlgebra/sparse/factorization/GmresIlu0.h
+++ b/il/linearAlgebra/sparse/factorization/GmresIlu0.h
@@ -260,8 +260,13 @@ inline il::Array<double> il::GmresIlu0::solve(
           stop_iteration = true;
         }
         break;
+      case -1:
+        // The maximum number of iterations has been reached
+        stop_iteration = true;
+        break;
       default:
         IL_EXPECT_FAST(false);
+        stop_iteration = true;
         break;
     }
   }
-- 
2.43.0


From df2cd723133430bbf3c0d1d9af05ce43d1bc37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 155/208] fix: il::Cholesky did not compile, and the upper part
 of its inverse was not computed

---
 .../dense/factorization/Cholesky.h            | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index aba83b8..35e0eba 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -63,8 +63,8 @@ class Cholesky<il::Array2D<double>> {
   double conditionNumber(il::Norm norm_type, double norm_a) const;
 };
 
-Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
-                                        il::Status& status)
+inline Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
+                                               il::Status& status)
     : l_{} {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
@@ -73,7 +73,7 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   const lapack_int n = static_cast<lapack_int>(A.size(0));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotrf(layout, uplo, n, A.data(), lda);
+      LAPACKE_dpotrf(layout, uplo, n, A.Data(), lda);
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
     status.SetOk();
@@ -83,13 +83,13 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
+inline il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
 
   return l_.size(d);
 }
 
-il::Array<double> Cholesky<il::Array2D<double>>::solve(
+inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(l_.size(0) == y.size());
 
@@ -100,37 +100,44 @@ il::Array<double> Cholesky<il::Array2D<double>>::solve(
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error =
-      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.data(), ldy);
+      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return y;
 }
 
-il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
+inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
   il::Array2D<double> inverse{l_};
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotri(layout, uplo, n, inverse.data(), lda);
+      LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
+  // Lapack only computes the lower part of the inverse, which is symmetric
+  for (il::int_t i1 = 0; i1 < inverse.size(1); ++i1) {
+    for (il::int_t i0 = 0; i0 < i1; ++i0) {
+      inverse(i0, i1) = inverse(i1, i0);
+    }
+  }
+
   return inverse;
 }
 
-double Cholesky<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
-                                                      double norm_a) const {
+// The matrix being symmetric, its L1 and Linf norms are the same
+inline double Cholesky<il::Array2D<double>>::conditionNumber(
+    il::Norm norm_type, double norm_a) const {
   IL_EXPECT_FAST(norm_type == il::Norm::L1 || norm_type == il::Norm::Linf);
 
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-  const char lapack_norm = (norm_type == il::Norm::L1) ? '1' : 'I';
   const lapack_int n = static_cast<lapack_int>(l_.size(0));
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   double rcond;
   const lapack_int lapack_error =
-      LAPACKE_dpocon(layout, lapack_norm, n, l_.data(), lda, norm_a, &rcond);
+      LAPACKE_dpocon(layout, uplo, n, l_.data(), lda, norm_a, &rcond);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return 1.0 / rcond;
@@ -145,8 +152,8 @@ class Cholesky<LowerArray2D<double>> {
   Cholesky(il::LowerArray2D<double> A, il::io_t, il::Status& status);
 };
 
-Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A, il::io_t,
-                                         il::Status& status)
+inline Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A,
+                                                il::io_t, il::Status& status)
     : l_{} {
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-- 
2.43.0


From 7f212acb12c1d2b268ab218a8d4f4314e78c538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 156/208] fix: il::LU::determinant had the wrong sign for an
 odd number of exchanged rows

---
 il/linearAlgebra/dense/factorization/LU.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..75e5a65 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -291,6 +291,10 @@ inline double LU<il::Array2D<double>>::determinant() const {
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
     det *= lu_(i, i);
+    // The rows i and ipiv_[i] - 1 have been exchanged
+    if (ipiv_[i] != i + 1) {
+      det = -det;
+    }
   }
 
   return det;
-- 
2.43.0


From 041fb1e96691ffaaedef86f5fb30067fa5987123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 157/208] fix: il::LU::solve ignored the padding of the
 matrices and did not check the size of the right-hand side

---
 il/linearAlgebra/dense/factorization/LU.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 75e5a65..fd65581 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From a58c6a7a1906435fd0cf7d8f24696131f1293aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 158/208] fix: the factors L() and U() of il::LU were declared
 but not defined

---
 il/linearAlgebra/dense/factorization/LU.h | 54 +++++++++++------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index fd65581..d2370ee 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -330,6 +330,33 @@ inline const double &LU<il::Array2D<double>>::U(il::int_t i,
   return lu_(i, j);
 }
 
+inline il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::LowerArray2D<double> L{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    L(i1, i1) = 1.0;
+    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
+      L(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return L;
+}
+
+inline il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::UpperArray2D<double> U{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
+      U(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return U;
+}
+
 /*
 template <> class LU<il::Array2C<double>> {
 private:
@@ -372,33 +399,6 @@ LU<il::Array2C<double>>::LU(il::Array2C<double> A, il::io_t, il::Status &status)
   }
 }
 
-template <> il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::LowerArray2D<double> L{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    L(i1, i1) = 1.0;
-    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
-      L(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return L;
-}
-
-template <> il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::UpperArray2D<double> U{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
-      U(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return U;
-}
-
 // template <>
 // class LU<il::Array2C<double>> {
 // private:
-- 
2.43.0


From b3b874a7f546323b29af5a72688bfe50f12d4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 159/208] fix: an empty system stopped the program in
 il::linearSolve, il::LU and il::Cholesky

---
 .../dense/factorization/Cholesky.h            | 13 ++++++++++++
 il/linearAlgebra/dense/factorization/LU.h     | 18 +++++++++++++++++
 .../dense/factorization/linearSolve.h         | 20 +++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index 35e0eba..b678ce8 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -68,6 +68,11 @@ inline Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
     : l_{} {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
+  if (A.size(0) == 0) {
+    status.SetOk();
+    return;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(A.size(0));
@@ -93,6 +98,10 @@ inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(l_.size(0) == y.size());
 
+  if (y.size() == 0) {
+    return y;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(l_.size(0));
@@ -108,6 +117,10 @@ inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
 
 inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
   il::Array2D<double> inverse{l_};
+  if (inverse.size(0) == 0) {
+    return inverse;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d2370ee..b536951 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -211,6 +211,12 @@ class LU<il::Array2D<double>> {
 inline LU<il::Array2D<double>>::LU(il::Array2D<double> A, il::io_t,
                                    il::Status &status)
     : ipiv_{}, lu_{} {
+  if (A.size(0) == 0 || A.size(1) == 0) {
+    status.SetOk();
+    lu_ = std::move(A);
+    return;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const lapack_int m = static_cast<lapack_int>(A.size(0));
   const lapack_int n = static_cast<lapack_int>(A.size(1));
@@ -241,6 +247,10 @@ inline il::Array<double> LU<il::Array2D<double>>::solve(
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
   IL_EXPECT_FAST(lu_.size(0) == y.size());
 
+  if (y.size() == 0) {
+    return y;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
@@ -259,6 +269,10 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
   IL_EXPECT_FAST(lu_.size(0) == y.size(0));
 
+  if (y.size(0) == 0 || y.size(1) == 0) {
+    return y;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
@@ -276,6 +290,10 @@ inline il::Array2D<double> LU<il::Array2D<double>>::inverse() const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
 
   il::Array2D<double> inverse{lu_};
+  if (inverse.size(0) == 0) {
+    return inverse;
+  }
+
   const int layout = LAPACK_COL_MAJOR;
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..8e7cc94 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -41,6 +41,11 @@ inline il::Array<double> linearSolve(il::Array2D<double> A, il::Array<double> y,
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(y.size() == A.size(0));
 
+  if (y.size() == 0) {
+    status.SetOk();
+    return y;
+  }
+
   il::Array<lapack_int> ipiv{A.size(0)};
 
   const int layout{LAPACK_COL_MAJOR};
@@ -67,6 +72,11 @@ inline il::Array<double> linearSolve(il::Array2C<double> A, il::Array<double> y,
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(y.size() == A.size(1));
 
+  if (y.size() == 0) {
+    status.SetOk();
+    return y;
+  }
+
   il::Array<lapack_int> ipiv{A.size(0)};
 
   const int layout{LAPACK_ROW_MAJOR};
@@ -95,6 +105,11 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
   IL_EXPECT_FAST(y.size() == A.size(1));
   IL_EXPECT_FAST(A.capacityRight() >= A.widthLeft() + A.widthRight());
 
+  if (y.size() == 0) {
+    status.SetOk();
+    return y;
+  }
+
   il::Array<lapack_int> ipiv{A.size(1)};
 
   const int layout{LAPACK_ROW_MAJOR};
@@ -125,6 +140,11 @@ inline il::Array<double> linearSolve(il::TriDiagonal<double> A,
                                      il::Status &status) {
   IL_EXPECT_FAST(A.size() == y.size());
 
+  if (y.size() == 0) {
+    status.SetOk();
+    return y;
+  }
+
   const int layout{LAPACK_ROW_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size())};
   const lapack_int nrhs = 1;
-- 
2.43.0


From f7df922eb60507329401a4ffa3198ac343c82a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 160/208] fix: il::linearSolve with a band matrix gave Lapack
 the transposed storage, and stopped or returned a wrong solution

---
 .../dense/factorization/linearSolve.h         | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index 8e7cc94..d5f0b41 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -112,16 +112,25 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
 
   il::Array<lapack_int> ipiv{A.size(1)};
 
-  const int layout{LAPACK_ROW_MAJOR};
+  const int layout{LAPACK_COL_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size(1))};
   const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
   const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+  const lapack_int ldab{2 * kl + ku + 1};
+  const lapack_int ldb{n};
+
+  // Lapack stores the bands by columns, and needs kl more rows for the fill-in
+  il::Array2D<double> ab{ldab, n, 0.0};
+  for (il::int_t i0 = 0; i0 < n; ++i0) {
+    for (il::int_t k = -kl; k <= ku; ++k) {
+      if (i0 + k >= 0 && i0 + k < n) {
+        ab(kl + ku - k, i0 + k) = A(i0, k);
+      }
+    }
+  }
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, ab.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 525c7aa580bad8e1b9de65ae4019ff41d0fec3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 161/208] fix: the residual of il::Cg was not the true one with
 a preconditionner, and was not updated when the iterations did not converge

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..6e55a6d 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -148,6 +148,8 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
             tmp_.Data());
   IL_ENSURE(rci_request_ == 0);
 
+  const MKL_INT integer_one = 1;
+  const double norm_y = dnrm2(&n_, y.data(), &integer_one);
   bool stop_loop = false;
   bool max_nb_iterations_reached = false;
   bool has_converged = false;
@@ -173,10 +175,11 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        double norm_residual = std::sqrt(dpar_[4]);
-        if (norm_residual <=
-            relative_precision_ * std::sqrt(dpar_[2]) + absolute_precision_) {
-          norm_residual_ = norm_residual;
+        // With a preconditionner, dpar_[4] is not the square norm of the
+        // residual, which is stored in tmp_[2 * n_]
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
+        if (norm_residual_ <=
+            relative_precision_ * norm_y + absolute_precision_) {
           has_converged = true;
           stop_loop = true;
         } else if (nb_iterations_ == max_nb_iterations_) {
@@ -324,7 +327,10 @@ void Cg<double>::Next() {
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        norm_residual_ = std::sqrt(dpar_[4]);
+        // With a preconditionner, dpar_[4] is not the square norm of the
+        // residual, which is stored in tmp_[2 * n_]
+        const MKL_INT integer_one = 1;
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
         if (nb_iterations_ == initial_nb_iterations + 1) {
           stop_loop = true;
         }
-- 
2.43.0


From 8217869938ecb7f1985265b91fedbe535424f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 162/208] fix: il::Gmres::Solve reported a success when it had
 not converged, and never stopped after its maximum number of iterations

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..20243bf 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -488,8 +488,13 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
           stop_iteration = true;
         }
         break;
+      case -1:
+        // The maximum number of iterations has been reached
+        stop_iteration = true;
+        break;
       default:
         IL_EXPECT_FAST(false);
+        stop_iteration = true;
         break;
     }
   }
@@ -498,7 +503,23 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+
+  // Compute the residual of the solution, as the iterations might have been
+  // stopped before the convergence
+  il::ArrayEdit<double> residual = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    residual[i] = 0.0;
+  }
+  (*m_)(x, il::io, residual);
+  daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+        &one_int);
+  norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+  if (norm_residual_ <= relative_precision * y_norm) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+    IL_SET_SOURCE(status);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 96474a3e6c28194edaf573839ba758876983fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 163/208] fix: il::Gmres::Next forgot the iteration which finds
 the exact solution

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 55 +++++++++++-----------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 20243bf..d4c53ce 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -97,6 +97,10 @@ class Gmres {
              il::Status& status);
   il::Array<T> solve(const il::Array<T>& y);
   il::int_t nbIterations() const;
+
+ private:
+  // Update the norm of the residual with the current solution
+  void updateResidual(il::io_t, int& itercount);
 };
 
 template <typename T>
@@ -267,36 +271,10 @@ void Gmres<T>::Next() {
         (*m_)(my_x, il::io, my_y);
       } break;
       case 2: {
-        ipar_[12] = 1;
-        // Retrieve iteration number AND update sol
-        dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
-                    dpar_.data(), tmp_.Data(), &itercount);
-        // Compute the current true residual via MKL (Sparse) BLAS
-        // routines. It multiplies the matrix A with yCopy and
-        // store the result in residual.
-        //--------------- To Change
-        il::ArrayView<double> my_x = ycopy_.view();
-        il::ArrayEdit<double> my_y = residual_.Edit();
-        for (il::int_t i = 0; i < n_; ++i) {
-          my_y[i] = 0.0;
-        }
-        (*m_)(my_x, il::io, my_y);
-        // Compute: residual = A.(current x) - y
-        // Note that A.(current x) is stored in residual before this operation
-        daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
-              &one_int);
-
-        norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+        updateResidual(il::io, itercount);
         if (itercount == begin_itercount + 1) {
           stop_iteration = true;
         }
-
-
-        // This number plays a critical role in the precision of the method
-//        double error_ratio = norm_residual / y_norm;
-//        if (norm_residual <= relative_precision_ * y_norm) {
-//          stop_iteration = true;
-//        }
       } break;
       case 3: {
         // If RCI_REQUEST=3, then apply the preconditioner on the
@@ -317,6 +295,8 @@ void Gmres<T>::Next() {
         // computational errors. The norm is contained in DPAR(7)
         // parameter
         if (dpar_[6] == 0.0) {
+          // The solution has been found
+          updateResidual(il::io, itercount);
           stop_iteration = true;
         }
         break;
@@ -522,6 +502,27 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
   }
 }
 
+template <typename T>
+void Gmres<T>::updateResidual(il::io_t, int& itercount) {
+  const int one_int = 1;
+  const double minus_one_double = -1.0;
+
+  ipar_[12] = 1;
+  // Retrieve iteration number AND update sol
+  dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
+              dpar_.data(), tmp_.Data(), &itercount);
+  // Compute the current true residual: A.(current x) - y
+  il::ArrayView<double> my_x = ycopy_.view();
+  il::ArrayEdit<double> my_y = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    my_y[i] = 0.0;
+  }
+  (*m_)(my_x, il::io, my_y);
+  daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+        &one_int);
+  norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+}
+
 template <typename T>
 il::int_t Gmres<T>::nbIterations() const {
   return nb_iterations_;
-- 
2.43.0


From e5252d8f1abf518bc221cafd23c31e2ea109b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 164/208] fix: the maximum number of iterations of a
 preconditionned il::Gmres was not initialised

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index d4c53ce..3079776 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -135,6 +135,7 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From 098fbf470780e1640ee0e93b5811343111360ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 165/208] fix: loading or saving a nested map in a pack file
 printed debug messages (and needed iostream)

---
 il/io/filepack/filepack.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..2392126 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -338,7 +338,6 @@ inline void auxLoad(il::int_t n, il::io_t,
 
             const std::size_t error =
                 fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
           }
           const il::int_t n = readVarint(il::io, k, file);
           //          const std::size_t error = std::fread(&n,
@@ -384,7 +383,6 @@ inline void auxLoad(il::int_t n, il::io_t,
               }
             }
           }
-          std::cout << "End" << std::endl;
         } else {
           il::int_t n_map = 0;
           const il::int_t n = readVarint(il::io, n_map, file);
@@ -656,7 +654,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
           //        std::fseek(file, n_map, SEEK_CUR);
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
         IL_UNREACHABLE;
-- 
2.43.0


From 7f323afcd2a1e25121df5f6eea83215266989785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 166/208] fix: matrices of bytes were written to and read from
 pack files as if they were made of doubles

---
 il/io/filepack/filepack.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 2392126..f8801b3 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -141,7 +141,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -306,7 +306,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -555,8 +555,8 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
         for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
+          std::fwrite(A.data() + j * A.capacity(0), sizeof(unsigned char),
+                      size0, file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
       } break;
-- 
2.43.0


From 219fef328dee556af65fad1f27bc640d6b4bfacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 167/208] fix: a pack file with a string could not be loaded as
 an il::MapArray and got an extra character as an il::Map

---
 il/io/filepack/filepack.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index f8801b3..a3e5274 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -121,8 +121,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::Array<char> raw_value{size + 1};
         std::fread(raw_value.Data(), sizeof(char), size + 1, file);
         k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
+        il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
       case il::Type::ArrayOfDouble: {
@@ -284,9 +283,9 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::int_t size = 0;
         std::fread(&size, sizeof(il::int_t), 1, file);
         k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
+        il::Array<char> raw_value{size + 1};
+        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
+        k += size + 1;
         il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
-- 
2.43.0


From bfce5ffc623c6ee8ef630529cea860530edf6a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 168/208] fix: the keys of a pack file were read with a wrong
 length by the loader of il::Map

---
 il/io/filepack/filepack.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index a3e5274..0244dab 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -82,10 +82,10 @@ inline void auxLoad(il::int_t n, il::io_t,
     if (size_string == 0) {
       break;
     }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
+    il::Array<char> raw_string{size_string};
+    std::fread(raw_string.Data(), sizeof(char), size_string, file);
+    il::String string{il::StringType::Byte, raw_string.data(), size_string};
+    k += string.size();
 
     il::Type type;
     fread(&type, sizeof(il::Type), 1, file);
-- 
2.43.0


From 9a1a9bd6948dde03af4c854456cdf9f806434bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 169/208] fix: a nested map in a pack file was read as an array
 of structures, which was then lost

---
 il/io/filepack/filepack.h | 247 ++++++--------------------------------
 1 file changed, 34 insertions(+), 213 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 0244dab..2e4c493 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -72,8 +72,9 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
+// Config is either an il::Map or an il::MapArray
+template <typename Config>
+void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
   IL_UNUSED(n);
   il::int_t k = 0;
 
@@ -156,24 +157,25 @@ inline void auxLoad(il::int_t n, il::io_t,
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
       case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
+        const il::int_t nb_types = il::readVarint(il::io, k, file);
 
         il::Array<il::String> key{nb_types};
         il::Array<il::Type> type{nb_types};
         for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
+          const il::int_t key_size = il::readVarint(il::io, k, file);
 
           il::Array<char> raw_string{key_size};
           std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
+          il::String my_string{il::StringType::Byte, raw_string.data(),
+                               key_size};
+          key[i] = my_string;
 
-          fread(&(type[i]), sizeof(il::Type), 1, file);
+          const std::size_t error =
+              fread(&(type[i]), sizeof(il::Type), 1, file);
         }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
+        const il::int_t n = readVarint(il::io, k, file);
+        //          const std::size_t error = std::fread(&n,
+        //          sizeof(il::int_t), 1, file);
 
         il::Array<il::Dynamic> array{nb_types};
         for (il::int_t i = 0; i < nb_types; ++i) {
@@ -199,13 +201,15 @@ inline void auxLoad(il::int_t n, il::io_t,
               case il::Type::Double: {
                 il::Array<double>& ref = array[i].As<il::Array<double>>();
                 double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
+                const std::size_t error =
+                    std::fread(&value, sizeof(double), 1, file);
                 ref[j] = value;
               } break;
               case il::Type::Integer: {
                 il::Array<int>& ref = array[i].As<il::Array<int>>();
                 int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
+                const std::size_t error =
+                    std::fread(&value, sizeof(int), 1, file);
                 ref[j] = value;
               } break;
               default:
@@ -213,22 +217,22 @@ inline void auxLoad(il::int_t n, il::io_t,
             }
           }
         }
-      }
-      case il::Type::MapArrayStringToDynamic:
-      case il::Type::MapStringToDynamic: {
+
+        Config inner{nb_types};
+        for (il::int_t i = 0; i < nb_types; ++i) {
+          inner.Set(std::move(key[i]), std::move(array[i]));
+        }
+        config.Set(std::move(string), il::Dynamic{std::move(inner)});
+      } break;
+      case il::Type::MapStringToDynamic:
+      case il::Type::MapArrayStringToDynamic: {
         il::int_t n_map = 0;
         const il::int_t n = readVarint(il::io, n_map, file);
         il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
-        }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
+        Config inner{n};
+        auxLoad(size, il::io, inner, file);
         k += size;
+        config.Set(std::move(string), il::Dynamic{std::move(inner)});
       } break;
       default:
         IL_UNREACHABLE;
@@ -236,191 +240,6 @@ inline void auxLoad(il::int_t n, il::io_t,
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
-    }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
-        }
-      } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
-      default:
-        IL_UNREACHABLE;
-    }
-  }
-}
-
 template <>
 class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
  public:
@@ -510,7 +329,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+    const bool save_as_array_of_struct =
+        (data.value(i).type() == il::Type::MapArrayStringToDynamic &&
+         option.size() == 1 && option[0] == data.key(i));
+    const il::Type type = save_as_array_of_struct ? il::Type::ArrayOfStruct
+                                                  : data.value(i).type();
     std::fwrite(&type, sizeof(il::Type), 1, file);
     n += sizeof(il::Type);
 
@@ -572,8 +395,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
         if (save_as_array_of_struct) {
           const il::MapArray<il::String, il::Dynamic>& my_data =
               data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-- 
2.43.0


From d494cbf2ed0bb4781c4ef8b0fe58af00befd8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 170/208] fix: a truncated or malformed pack file was loaded as
 if it were complete, or never stopped being read

---
 il/io/filepack/filepack.h | 152 +++++++++++++++++++++++++++++++-------
 1 file changed, 125 insertions(+), 27 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 2e4c493..2c4aca9 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -20,6 +20,7 @@
 #define IL_FILEPACK_H
 
 #include <cstdio>
+#include <limits>
 
 #include <il/Array.h>
 #include <il/Map.h>
@@ -43,7 +44,9 @@ inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
   const unsigned char continuation_byte = 0x80;
   unsigned char byte;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
+    if (std::fread(&byte, sizeof(unsigned char), 1, file) != 1) {
+      break;
+    }
     k += 1;
     ans += multiplier * (byte & continuation_mask);
     multiplier *= max_byte;
@@ -72,16 +75,47 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
-// Config is either an il::Map or an il::MapArray
+// Returns false if something could not be read, or if the file is too short to
+// contain n more elements
+inline bool hasPackData(il::int_t n, il::int_t element_size, il::io_t,
+                        std::FILE* file) {
+  if (std::feof(file) || std::ferror(file) || n < 0 ||
+      (element_size > 0 &&
+       n > std::numeric_limits<il::int_t>::max() / element_size)) {
+    return false;
+  }
+  const long position = std::ftell(file);
+  if (n == 0 || position < 0 || std::fseek(file, 0, SEEK_END) != 0) {
+    return true;
+  }
+  const long end = std::ftell(file);
+  return std::fseek(file, position, SEEK_SET) == 0 &&
+         n * element_size <= static_cast<il::int_t>(end - position);
+}
+
+inline bool hasPackData(il::int_t n0, il::int_t n1, il::int_t element_size,
+                        il::io_t, std::FILE* file) {
+  if (n1 == 0) {
+    return il::hasPackData(n0, 0, il::io, file);
+  }
+  return il::hasPackData(n0, element_size, il::io, file) &&
+         il::hasPackData(n1, n0 * element_size, il::io, file);
+}
+
+// Config is either an il::Map or an il::MapArray. Returns false if the file is
+// not well formed
 template <typename Config>
-void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
+bool auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
   IL_UNUSED(n);
   il::int_t k = 0;
 
   while (true) {
     il::int_t size_string = readVarint(il::io, k, file);
+    if (!il::hasPackData(size_string, sizeof(char), il::io, file)) {
+      return false;
+    }
     if (size_string == 0) {
-      break;
+      return true;
     }
     il::Array<char> raw_string{size_string};
     std::fread(raw_string.Data(), sizeof(char), size_string, file);
@@ -89,29 +123,40 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
     k += string.size();
 
     il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
+    if (fread(&type, sizeof(il::Type), 1, file) != 1) {
+      return false;
+    }
     k += sizeof(il::Type);
 
     switch (type) {
       case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
+        unsigned char value = 0;
+        if (std::fread(&value, sizeof(bool), 1, file) != 1) {
+          return false;
+        }
         k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
+        config.Set(std::move(string), il::Dynamic{value != 0});
       } break;
       case il::Type::Integer: {
         const il::int_t value = readVarint(il::io, k, file);
+        if (std::feof(file) || std::ferror(file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{value});
       } break;
       case il::Type::Single: {
         float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
+        if (std::fread(&value, sizeof(float), 1, file) != 1) {
+          return false;
+        }
         k += sizeof(float);
         config.Set(std::move(string), il::Dynamic{value});
       } break;
       case il::Type::Double: {
         double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
+        if (std::fread(&value, sizeof(double), 1, file) != 1) {
+          return false;
+        }
         k += sizeof(double);
         config.Set(std::move(string), il::Dynamic{value});
       } break;
@@ -119,8 +164,14 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         il::int_t size = 0;
         std::fread(&size, sizeof(il::int_t), 1, file);
         k += sizeof(il::int_t);
+        if (!il::hasPackData(size, sizeof(char), il::io, file)) {
+          return false;
+        }
         il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
+        if (static_cast<il::int_t>(std::fread(raw_value.Data(), sizeof(char),
+                                              size + 1, file)) != size + 1) {
+          return false;
+        }
         k += size + 1;
         il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
@@ -129,8 +180,14 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         il::int_t size = 0;
         std::fread(&size, sizeof(il::int_t), 1, file);
         k += sizeof(il::int_t);
+        if (!il::hasPackData(size, sizeof(double), il::io, file)) {
+          return false;
+        }
         il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
+        if (static_cast<il::int_t>(
+                std::fread(v.Data(), sizeof(double), size, file)) != size) {
+          return false;
+        }
         k += sizeof(double) * size;
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
@@ -140,8 +197,15 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         std::fread(&size0, sizeof(il::int_t), 1, file);
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
+        if (!il::hasPackData(size0, size1, sizeof(unsigned char), il::io, file)) {
+          return false;
+        }
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
+        if (static_cast<il::int_t>(std::fread(A.Data(), sizeof(unsigned char),
+                                              size0 * size1, file)) !=
+            size0 * size1) {
+          return false;
+        }
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -151,18 +215,31 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         std::fread(&size0, sizeof(il::int_t), 1, file);
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
+        if (!il::hasPackData(size0, size1, sizeof(double), il::io, file)) {
+          return false;
+        }
         il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
+        if (static_cast<il::int_t>(std::fread(v.Data(), sizeof(double),
+                                              size0 * size1, file)) !=
+            size0 * size1) {
+          return false;
+        }
         k += sizeof(double) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
       case il::Type::ArrayOfStruct: {
         const il::int_t nb_types = il::readVarint(il::io, k, file);
+        if (!il::hasPackData(nb_types, 1 + sizeof(il::Type), il::io, file)) {
+          return false;
+        }
 
         il::Array<il::String> key{nb_types};
         il::Array<il::Type> type{nb_types};
         for (il::int_t i = 0; i < nb_types; ++i) {
           const il::int_t key_size = il::readVarint(il::io, k, file);
+          if (!il::hasPackData(key_size, sizeof(char), il::io, file)) {
+            return false;
+          }
 
           il::Array<char> raw_string{key_size};
           std::fread(raw_string.Data(), sizeof(char), key_size, file);
@@ -170,12 +247,15 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
                                key_size};
           key[i] = my_string;
 
-          const std::size_t error =
-              fread(&(type[i]), sizeof(il::Type), 1, file);
+          if (fread(&(type[i]), sizeof(il::Type), 1, file) != 1) {
+            return false;
+          }
         }
         const il::int_t n = readVarint(il::io, k, file);
-        //          const std::size_t error = std::fread(&n,
-        //          sizeof(il::int_t), 1, file);
+        if ((nb_types == 0 && n != 0) ||
+            !il::hasPackData(n, nb_types, sizeof(int), il::io, file)) {
+          return false;
+        }
 
         il::Array<il::Dynamic> array{nb_types};
         for (il::int_t i = 0; i < nb_types; ++i) {
@@ -191,7 +271,7 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
               ref.Resize(n);
             } break;
             default:
-              IL_UNREACHABLE;
+              return false;
           }
         }
 
@@ -201,15 +281,17 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
               case il::Type::Double: {
                 il::Array<double>& ref = array[i].As<il::Array<double>>();
                 double value = 0.0;
-                const std::size_t error =
-                    std::fread(&value, sizeof(double), 1, file);
+                if (std::fread(&value, sizeof(double), 1, file) != 1) {
+                  return false;
+                }
                 ref[j] = value;
               } break;
               case il::Type::Integer: {
                 il::Array<int>& ref = array[i].As<il::Array<int>>();
                 int value = 0;
-                const std::size_t error =
-                    std::fread(&value, sizeof(int), 1, file);
+                if (std::fread(&value, sizeof(int), 1, file) != 1) {
+                  return false;
+                }
                 ref[j] = value;
               } break;
               default:
@@ -229,13 +311,19 @@ void auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         il::int_t n_map = 0;
         const il::int_t n = readVarint(il::io, n_map, file);
         il::int_t size = 0;
+        // An entry has at least the size of its key, its key and its type
+        if (!il::hasPackData(n, 2 + sizeof(il::Type), il::io, file)) {
+          return false;
+        }
         Config inner{n};
-        auxLoad(size, il::io, inner, file);
+        if (!il::auxLoad(size, il::io, inner, file)) {
+          return false;
+        }
         k += size;
         config.Set(std::move(string), il::Dynamic{std::move(inner)});
       } break;
       default:
-        IL_UNREACHABLE;
+        return false;
     }
   }
 }
@@ -264,7 +352,12 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    if (!il::auxLoad(-1, il::io, ans, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -300,7 +393,12 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    if (!il::auxLoad(-1, il::io, ans, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return ans;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 153351f23f6120f89bdda266ccb48952a1b2e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 171/208] fix: saving a value which has no representation in a
 pack file stopped the program or wrote a file which could not be loaded

---
 il/io/filepack/filepack.h | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 2c4aca9..f08fb6c 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -411,7 +411,8 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
   }
 };
 
-inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
+// Returns false if the format has no way to represent the data
+inline bool auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                     const il::ArrayView<il::String>& option, il::io_t,
                     il::int_t& n, std::FILE* file) {
   n = 0;
@@ -424,6 +425,9 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
     IL_UNUSED(my_size);
 
     const il::int_t string_size = data.key(i).size();
+    if (string_size == 0) {
+      return false;
+    }
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
@@ -501,7 +505,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           const il::int_t population_struct = my_data.nbElements();
           writeVarint(population_struct, il::io, k, file);
 
-          il::int_t n;
+          il::int_t n = 0;
           bool size_of_array_is_known = false;
           for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
                i = my_data.next(i)) {
@@ -511,26 +515,30 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
             const il::Type type = my_data.value(i).type();
             switch (type) {
               case il::Type::ArrayOfDouble: {
+                const il::Array<double>& ref =
+                    my_data.value(i).as<il::Array<double>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (n != ref.size()) {
+                  return false;
                 }
                 const il::Type my_type = il::Type::Double;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               case il::Type::ArrayOfInt32: {
+                const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (n != ref.size()) {
+                  return false;
                 }
                 const il::Type my_type = il::Type::Integer;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               default:
-                IL_UNREACHABLE;
+                return false;
             }
           }
 
@@ -551,7 +559,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                   std::fwrite(&ref[j], sizeof(int), 1, file);
                 } break;
                 default:
-                  IL_UNREACHABLE;
+                  return false;
               }
             }
           }
@@ -565,8 +573,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           if (option.size() > 0 && option[0] == data.key(i)) {
             new_option = option.view(il::Range{1, option.size()});
           }
-          auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
+          if (!auxSave(
+                  data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
+                  new_option, il::io, n_map, file)) {
+            return false;
+          }
           //        std::fseek(file, -(n_map + sizeof(il::int_t)),
           //          SEEK_CUR);
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
@@ -574,10 +585,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         }
       } break;
       default:
-        IL_UNREACHABLE;
+        return false;
     }
   }
   writeVarint(0, il::io, n, file);
+  return true;
 }
 
 template <>
@@ -603,7 +615,12 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 
     il::Array<il::String> option{};
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    if (!auxSave(data, option.view(), il::io, n, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -640,7 +657,12 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
 #endif
 
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    if (!auxSave(data, option.view(), il::io, n, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 92e30d074f24f99d7c0a1b0b1914caa18d6b134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 172/208] fix: the errors which occur when a pack file is
 written were not reported

---
 il/io/filepack/filepack.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index f08fb6c..55c8320 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -621,6 +621,12 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
       IL_SET_SOURCE(status);
       return;
     }
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -663,6 +669,12 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
       IL_SET_SOURCE(status);
       return;
     }
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 909d367cdc4f4919903850f768b8b2030aba35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 173/208] fix: the columns of an array of structures were
 written to arrays which did not exist when a pack file was loaded

---
 il/io/filepack/filepack.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 55c8320..0600d67 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -261,14 +261,10 @@ bool auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         for (il::int_t i = 0; i < nb_types; ++i) {
           switch (type[i]) {
             case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
+              array[i] = il::Dynamic{il::Array<double>{n}};
             } break;
             case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
+              array[i] = il::Dynamic{il::Array<int>{n}};
             } break;
             default:
               return false;
-- 
2.43.0


From 0e13655f3e652d809be26ba53e4863c44cc95bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 174/208] fix: an empty matrix with an enormous dimension in a
 NumPy file stopped the program

---
 il/io/numpy/numpy.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 49ddb30..0a91cb6 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -223,9 +223,14 @@ bool hasNumpyData(const il::Array<il::int_t>& shape, il::int_t element_size,
     }
   }
 
+  if (is_empty) {
+    // There is nothing to read, but an empty matrix allocates memory for its
+    // other dimension
+    return nb_bytes <= std::numeric_limits<int>::max();
+  }
   const long position = std::ftell(fp);
-  if (is_empty || position < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
-    // Nothing to read or the size of the file is not known
+  if (position < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
+    // The size of the file is not known
     return true;
   }
   const long end = std::ftell(fp);
-- 
2.43.0


From fc4179017eeea276910fae43d57afef4cea8f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 175/208] fix: an empty matrix with an enormous dimension in a
 pack file stopped the program

---
 il/io/filepack/filepack.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 0600d67..fc84613 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -95,8 +95,12 @@ inline bool hasPackData(il::int_t n, il::int_t element_size, il::io_t,
 
 inline bool hasPackData(il::int_t n0, il::int_t n1, il::int_t element_size,
                         il::io_t, std::FILE* file) {
-  if (n1 == 0) {
-    return il::hasPackData(n0, 0, il::io, file);
+  if (n0 == 0 || n1 == 0) {
+    // There is nothing to read, but an empty matrix allocates memory for its
+    // other dimension
+    const il::int_t max = std::numeric_limits<int>::max() / element_size;
+    return n0 >= 0 && n0 <= max && n1 >= 0 && n1 <= max &&
+           il::hasPackData(0, element_size, il::io, file);
   }
   return il::hasPackData(n0, element_size, il::io, file) &&
          il::hasPackData(n1, n0 * element_size, il::io, file);
@@ -253,7 +257,7 @@ bool auxLoad(il::int_t n, il::io_t, Config& config, std::FILE* file) {
         }
         const il::int_t n = readVarint(il::io, k, file);
         if ((nb_types == 0 && n != 0) ||
-            !il::hasPackData(n, nb_types, sizeof(int), il::io, file)) {
+            !il::hasPackData(n, nb_types * sizeof(int), il::io, file)) {
           return false;
         }
 
-- 
2.43.0


From b92f8b2c7679e6aaf8d59239efe9fa1db52a8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 176/208] fix: sets did not compile

---
 il/container/hash/Set.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ed81b46..a5bd087 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -20,7 +20,6 @@
 #define IL_SET_H
 
 #include <il/container/hash/HashFunction.h>
-#include <il/container/hash/Spot.h>
 
 namespace il {
 
@@ -41,7 +40,7 @@ class Set {
   ~Set();
 
   il::spot_t search(const T& x) const;
-  void Add(const T& x, il::io_t, il::spot_t i);
+  void Add(const T& x, il::io_t, il::spot_t& i);
   void Add(const T& x);
   bool found(il::spot_t i) const;
   bool contains(const T& x) const;
@@ -103,7 +102,7 @@ Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
           (bucket_ + i)->~T();
         }
       }
@@ -137,9 +136,8 @@ Set<T, F>& Set<T, F>::operator=(Set<T, F>&& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+          (bucket_ + i)->~T();
         }
       }
       il::deallocate(bucket_);
@@ -272,12 +270,7 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-#ifdef IL_DEBUG_CLASS
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_),
-                    0};
-#else
   return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
-#endif
 }
 
 template <typename T, typename F>
-- 
2.43.0


From 89b95f3a5119dfdb1b5a8ac81712f5010de255d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 177/208] fix: the copy of an empty set had an undefined
 pointer, released by a later assignment

---
 il/container/hash/Set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index a5bd087..7aed01b 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -70,6 +70,7 @@ Set<T, F>::Set(const Set<T, F>& set) {
   p_ = set.p_;
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+  bucket_ = nullptr;
   if (p_ >= 0) {
     const il::int_t m = nbBuckets(p_);
     bucket_ = il::allocateArray<T>(m);
-- 
2.43.0


From cf19f81eb5029e9e4ce54e3fcd35d54f73cabdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 178/208] fix: assigning a set to itself read released memory,
 and assigning an empty set leaked the elements

---
 il/container/hash/Set.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 7aed01b..cc2d643 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -97,18 +97,21 @@ Set<T, F>::Set(Set<T, F>&& set) {
 
 template <typename T, typename F>
 Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
+  if (this == &set) {
+    return *this;
+  }
   const int p = set.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
-          (bucket_ + i)->~T();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+        (bucket_ + i)->~T();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<T>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 60199f8038e63e45764c354a5a749ca0dc86a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 179/208] fix: a cleared set still contained its destroyed
 elements

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index cc2d643..5bbfab1 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -251,9 +251,11 @@ void Set<T, F>::Clear() {
       if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
         (bucket_ + i)->~T();
       }
+      F::constructEmpty(il::io, bucket_ + i);
     }
   }
   nb_elements_ = 0;
+  nb_tombstones_ = 0;
 }
 
 template <typename T, typename F>
-- 
2.43.0


From 1a9a03446a84dd03915fd1c3f8e5eb519f6b9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 180/208] fix: iterating over a set without storage read
 outside of it

---
 il/container/hash/Set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 5bbfab1..155baeb 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -265,7 +265,7 @@ const T& Set<T, F>::element(il::spot_t i) const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotBegin() const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m && (F::isEmpty(bucket_[i]) || F::isTombstone(bucket_[i]))) {
@@ -276,12 +276,12 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
+  return il::spot_t{nbBuckets()};
 }
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::next(il::spot_t i) const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 578135f7195974c68f9a7671ad4dada09bdb86dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 181/208] fix: resizing in place erased the default value of
 the unset elements of 3d and 4d arrays

---
 il/container/3d/Array3D.h | 12 ++++++------
 il/container/4d/Array4C.h | 20 ++++++++++----------
 il/container/4d/Array4D.h | 20 ++++++++++----------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index aa93009..722a50f 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1058,12 +1058,12 @@ void Array3D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i2 = 0; i2 < n2; ++i2) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0; i0 < n0;
-             ++i0) {
-          new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+      for (il::int_t i2 = 0; i2 < n2; ++i2) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0; i0 < n0;
+               ++i0) {
+            new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+          }
         }
       }
     }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index bcdd10e..b95116d 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -869,16 +869,16 @@ void Array4C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = 0; i2 < n2; ++i2) {
-          for (il::int_t i3 =
-                   (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
-               i3 < n3; ++i3) {
-            new (data_ +
-                 ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
-                 i3) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = 0; i2 < n2; ++i2) {
+            for (il::int_t i3 =
+                     (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
+                 i3 < n3; ++i3) {
+              new (data_ +
+                   ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                   i3) T{};
+            }
           }
         }
       }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 888c5e6..3305ecb 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -869,16 +869,16 @@ void Array4D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i3 = 0; i3 < n3; ++i3) {
-      for (il::int_t i2 = 0; i2 < n2; ++i2) {
-        for (il::int_t i1 = 0; i1 < n1; ++i1) {
-          for (il::int_t i0 =
-                   (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
-               i0 < n0; ++i0) {
-            new (data_ +
-                 ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
-                 i0) T{};
+      for (il::int_t i3 = 0; i3 < n3; ++i3) {
+        for (il::int_t i2 = 0; i2 < n2; ++i2) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i0 =
+                     (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+                 i0 < n0; ++i0) {
+              new (data_ +
+                   ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                   i0) T{};
+            }
           }
         }
       }
-- 
2.43.0


From 868036e246b55aae130699691af8c04dc0cce15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 182/208] fix: the maximum of integers of type int did not
 compile

---
 il/core/core.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/core/core.h b/il/core/core.h
index a85c352..adcf895 100644
--- a/il/core/core.h
+++ b/il/core/core.h
@@ -179,6 +179,8 @@ T max(T a, T b) {
   return a >= b ? a : b;
 }
 
+inline int max(int a, int b) { return a >= b ? a : b; }
+
 template <typename T>
 T max(T a, int b) {
   return a >= b ? a : b;
-- 
2.43.0


From dcb7eae49ddcbdbe56495dc2f8eedcca9df73e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 183/208] fix: the logarithm of numbers above the largest power
 of two did not return

---
 il/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index fc77d85..16e2b7d 100644
--- a/il/math.h
+++ b/il/math.h
@@ -237,7 +237,7 @@ inline int nextLog2(std::size_t x) {
   //  return table_log2_64[index];
   std::size_t power = 1;
   int k = 0;
-  while (power < x) {
+  while (power < x && power != 0) {
     power *= 2;
     k += 1;
   }
@@ -259,7 +259,7 @@ inline int next_log2_32(unsigned int x) {
   //  return table_log2_32[index];
   unsigned int power = 1;
   int k = 0;
-  while (power < x) {
+  while (power < x && power != 0) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 2b17e53bceb3ac56b3d1e38cd989cc8bf7d7ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 184/208] fix: reading a PPM image did not compile

---
 il/io/ppm/ppm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..112c95d 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -34,8 +34,8 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
-                               il::Status& status) {
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+                                      il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
 #ifdef IL_UNIX
@@ -113,7 +113,8 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), 3 * width, height, fp) !=
+      static_cast<std::size_t>(height)) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 5ffb4cb31102d30b7976145522aed342dad16535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 185/208] fix: reading a PPM image cut short in its header did
 not return

---
 il/io/ppm/ppm.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 112c95d..9f82171 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -66,8 +66,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // Check for comments
   int c{std::getc(fp)};
   while (c == '#') {
-    while (std::getc(fp) != '\n') {
-    };
+    while (c != '\n' && c != EOF) {
+      c = std::getc(fp);
+    }
     c = std::getc(fp);
   }
   std::ungetc(c, fp);
@@ -108,8 +109,10 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
+  c = std::getc(fp);
+  while (c != '\n' && c != EOF) {
+    c = std::getc(fp);
+  }
 
   // read pixel data from file
   image.Resize(width, height);
-- 
2.43.0


From 6eeaed8758987a6957c39958abad2191ad4f61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 186/208] fix: the file of a damaged PPM image was left open

---
 il/io/ppm/ppm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 9f82171..924ad7f 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -55,10 +55,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   char buffer[16];
   if (!std::fgets(buffer, sizeof(buffer), fp)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
   if (buffer[0] != 'P' || buffer[1] != '6') {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -78,12 +80,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int height;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   const int error_no = fscanf_s(fp, "%d %d", &width, &height);
   if (error_no != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -92,6 +96,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int rgb_comp_color;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -99,6 +104,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   {
     const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
     if (error_no != 1) {
+      std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
       return image;
     }
@@ -106,6 +112,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 #endif
   // check rgb component depth
   if (rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -118,6 +125,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   image.Resize(width, height);
   if (std::fread(image.Data(), 3 * width, height, fp) !=
       static_cast<std::size_t>(height)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 8eafbd182d31d6f4e516cfa4c593d125a2116d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 187/208] fix: the dimensions of a damaged PPM image were
 trusted

---
 il/io/ppm/ppm.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 924ad7f..0b29d7d 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -121,10 +121,25 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     c = std::getc(fp);
   }
 
+  // check that the file can hold the pixels before any memory is allocated
+  bool enough_data = width > 0 && height > 0;
+  const long position = std::ftell(fp);
+  if (enough_data && position >= 0 && std::fseek(fp, 0, SEEK_END) == 0) {
+    const long end = std::ftell(fp);
+    enough_data =
+        std::fseek(fp, position, SEEK_SET) == 0 &&
+        height <= (end - position) / (3 * static_cast<il::int_t>(width));
+  }
+  if (!enough_data) {
+    std::fclose(fp);
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    return image;
+  }
+
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.Data(), 3 * width, height, fp) !=
-      static_cast<std::size_t>(height)) {
+  if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width), height,
+                 fp) != static_cast<std::size_t>(height)) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
-- 
2.43.0


From 81112e4d5e17b47f8d9b51247f4be0303968c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 188/208] fix: the pixels of a PPM image were looked for at the
 wrong place when its header is not laid out on lines

---
 il/io/ppm/ppm.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 0b29d7d..937dc23 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -19,6 +19,7 @@
 #ifndef IL_PPM_H
 #define IL_PPM_H
 
+#include <cctype>
 #include <cstdio>
 #include <string>
 
@@ -59,7 +60,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  if (buffer[0] != 'P' || buffer[1] != '6') {
+  if (buffer[0] != 'P' || buffer[1] != '6' || buffer[2] != '\n') {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
@@ -116,9 +117,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
+  // exactly one whitespace character separates the header from the pixels
   c = std::getc(fp);
-  while (c != '\n' && c != EOF) {
-    c = std::getc(fp);
+  if (c == EOF || !std::isspace(c)) {
+    std::fclose(fp);
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    return image;
   }
 
   // check that the file can hold the pixels before any memory is allocated
-- 
2.43.0


From 42ff7aaac1ff979eedd891e1865364e5b7def720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 189/208] fix: large numbers in the header of a PPM image
 wrapped around

---
 il/io/ppm/ppm.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 937dc23..cd595dd 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -21,6 +21,7 @@
 
 #include <cctype>
 #include <cstdio>
+#include <limits>
 #include <string>
 
 #include <il/Array2D.h>
@@ -77,16 +78,16 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   std::ungetc(c, fp);
 
   // read image size information
-  int width;
-  int height;
+  long width;
+  long height;
 #ifdef IL_UNIX
-  if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+  if (std::fscanf(fp, "%ld %ld", &width, &height) != 2) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
-  const int error_no = fscanf_s(fp, "%d %d", &width, &height);
+  const int error_no = fscanf_s(fp, "%ld %ld", &width, &height);
   if (error_no != 2) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
@@ -94,16 +95,16 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   }
 #endif
   // read rgb component
-  int rgb_comp_color;
+  long rgb_comp_color;
 #ifdef IL_UNIX
-  if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+  if (std::fscanf(fp, "%ld", &rgb_comp_color) != 1) {
     std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   {
-    const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
+    const int error_no = fscanf_s(fp, "%ld", &rgb_comp_color);
     if (error_no != 1) {
       std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
@@ -126,7 +127,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   }
 
   // check that the file can hold the pixels before any memory is allocated
-  bool enough_data = width > 0 && height > 0;
+  const long max_size = std::numeric_limits<int>::max();
+  bool enough_data =
+      width > 0 && width <= max_size && height > 0 && height <= max_size;
   const long position = std::ftell(fp);
   if (enough_data && position >= 0 && std::fseek(fp, 0, SEEK_END) == 0) {
     const long end = std::ftell(fp);
-- 
2.43.0


From 106cf00c581358ecfc58cbeee1c2cace8fdaf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 190/208] fix: the fill character was ignored on the right of
 floating point numbers

---
 il/io/format/format.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 6a4d571..d512da9 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3104,6 +3104,9 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
       buffer_.Reserve(buffer_.capacity() + 1);
     }
   }
+  if (spec.align() == ALIGN_LEFT) {
+    for (Char *end = start + n; *(end - 1) == ' '; --end) *(end - 1) = fill;
+  }
   if (sign) {
     if ((spec.align() != ALIGN_RIGHT && spec.align() != ALIGN_DEFAULT) ||
         *start != ' ') {
-- 
2.43.0


From 7e1ef10603e4323bb716609d0552557ae8c0c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 191/208] fix: widths and precisions which wrap around were
 accepted in format strings

---
 il/io/format/format.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index d512da9..83ecd47 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3633,17 +3633,16 @@ template <typename Char>
 unsigned parse_nonnegative_int(const Char *&s) {
   assert('0' <= *s && *s <= '9');
   unsigned value = 0;
+  // Convert to unsigned to prevent a warning.
+  unsigned max_int = (std::numeric_limits<int>::max)();
   do {
-    unsigned new_value = value * 10 + (*s++ - '0');
-    // Check if value wrapped around.
-    if (new_value < value) {
-      value = (std::numeric_limits<unsigned>::max)();
+    // Check that value does not wrap around.
+    if (value > max_int / 10) {
+      value = max_int + 1;
       break;
     }
-    value = new_value;
+    value = value * 10 + (*s++ - '0');
   } while ('0' <= *s && *s <= '9');
-  // Convert to unsigned to prevent a warning.
-  unsigned max_int = (std::numeric_limits<int>::max)();
   if (value > max_int) FMT_THROW(FormatError("number is too big"));
   return value;
 }
-- 
2.43.0


From 0a71ce4d15e41c215142177e33b36439d42ec2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 192/208] fix: centered floating point numbers were lost when
 the buffer was reallocated

---
 il/io/format/format.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 83ecd47..1370012 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3062,6 +3062,8 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
   if (spec.flag(HASH_FLAG)) *format_ptr++ = '#';
   if (spec.align() == ALIGN_CENTER) {
     width_for_sprintf = 0;
+    // The number is moved in place: the buffer must not be reallocated.
+    buffer_.Reserve(buffer_.size() + spec.width());
   } else {
     if (spec.align() == ALIGN_LEFT) *format_ptr++ = '-';
     if (width != 0) *format_ptr++ = '*';
-- 
2.43.0


From 2a5ddedcaa1ee92d65982421f6e57977407137b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 193/208] fix: printing stopped at the first null byte of the
 text

---
 il/io/format/formatIL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/format/formatIL.h b/il/io/format/formatIL.h
index 40b3f9e..16a7589 100644
--- a/il/io/format/formatIL.h
+++ b/il/io/format/formatIL.h
@@ -38,7 +38,7 @@ il::String format(Args&&... args) {
 template <typename... Args>
 void print(Args&&... args) {
   std::string s = fmt::format(args...);
-  std::printf("%s", s.data());
+  std::fwrite(s.data(), 1, s.size(), stdout);
 }
 
 
-- 
2.43.0


From 3b8868fc38781df2b4cf9df4142767ea7e15b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 194/208] fix: sobol.h did not compile

---
 il/random/sobol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 006ee2c..3ec26a4 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -36,7 +36,7 @@ inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
   int error_code;
   error_code = vslNewStream(&stream, brng, static_cast<MKL_INT>(dim));
   error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream, dim * nb_point,
-                            A.data(), a, b);
+                            A.Data(), a, b);
   error_code = vslDeleteStream(&stream);
 
   return A;
-- 
2.43.0


From d76478f3a716a8f0ddacc5e9e854ac2cba87e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 195/208] fix: sobol accepted more dimensions than there are in
 the generator

---
 il/random/sobol.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 3ec26a4..a4508d3 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -29,6 +29,9 @@ namespace il {
 
 inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
                                  double b) {
+  // With more dimensions, MKL silently generates a sequence of one dimension
+  IL_EXPECT_FAST(dim <= 40);
+
   il::Array2C<double> A{nb_point, dim};
 
   VSLStreamStatePtr stream;
-- 
2.43.0


From 83e5710628f31ab4a8f0a15c445490de4adfcd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 196/208] fix: il/png.h included a header which does not exist

---
 il/png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/png.h b/il/png.h
index c6283fc..3d46151 100644
--- a/il/png.h
+++ b/il/png.h
@@ -16,4 +16,4 @@
 //
 //==============================================================================
 
-#include <il/io/png.h>
+#include <il/io/png/png.h>
-- 
2.43.0


From 13dcf6ab34c987ccc8d01752391d005a898b908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 197/208] fix: png.cpp included itself instead of libpng and
 did not define loadPng

---
 il/io/png/png.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index b065f91..27ab803 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -18,16 +18,16 @@
 
 #include <il/io/png/png.h>
 
-#include "png.h"
+#include <png.h>
 
 namespace il {
 
-il::Array3C<unsigned char> loadPng(const std::string &filename, il::io_t,
+il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
                                    il::Status &status) {
   il::Array3C<unsigned char> image{};
 
   unsigned char header[8];
-  FILE *fp{fopen(filename.c_str(), "rb")};
+  FILE *fp{fopen(filename.asCString(), "rb")};
   if (fp == nullptr) {
     status.SetError(il::Error::FilesystemFileNotFound);
     IL_SET_SOURCE(status);
-- 
2.43.0


From 7cc7c5abc582f65cb4fed418bd8d4565e662fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 198/208] fix: loadPng closed a file that it could not open

---
 il/io/png/png.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index 27ab803..9f0d5cc 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -31,7 +31,6 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
   if (fp == nullptr) {
     status.SetError(il::Error::FilesystemFileNotFound);
     IL_SET_SOURCE(status);
-    fclose(fp);
     return image;
   }
 
-- 
2.43.0


From 928ec4915daa64072a51cd757dbbe2d62eb6ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 199/208] fix: loadPng read the signature of files that are too
 short

---
 il/io/png/png.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index 9f0d5cc..99aab39 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -34,8 +34,7 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
     return image;
   }
 
-  fread(header, 1, 8, fp);
-  if (png_sig_cmp(header, 0, 8)) {
+  if (fread(header, 1, 8, fp) != 8 || png_sig_cmp(header, 0, 8)) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     fclose(fp);
-- 
2.43.0


From b88f82154363a565e9c93dc96d77c3c0b5a749d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 200/208] fix: loadPng aborted on depths other than 8 and
 returned palette indices

---
 il/io/png/png.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index 99aab39..a0eabbb 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -70,12 +70,17 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
 
   int width{static_cast<int>(png_get_image_width(png_ptr, info_ptr))};
   int height{static_cast<int>(png_get_image_height(png_ptr, info_ptr))};
-  //  png_byte color_type{png_get_color_type(png_ptr, info_ptr)};
-  png_byte bit_depth{png_get_bit_depth(png_ptr, info_ptr)};
-  IL_EXPECT_FAST(bit_depth == 8);
-
+  if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
+    png_set_palette_to_rgb(png_ptr);
+  }
   //  int number_of_passes{png_set_interlace_handling(png_ptr)};
   png_read_update_info(png_ptr, info_ptr);
+  if (png_get_bit_depth(png_ptr, info_ptr) != 8) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    fclose(fp);
+    return image;
+  }
 
   if (setjmp(png_jmpbuf(png_ptr))) {
     status.SetError(il::Error::Undefined);
-- 
2.43.0


From b94b2c17baa8cae1ad5e7973ecae28ee56e42147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 201/208] fix: loadPng leaked its buffers on errors

---
 il/io/png/png.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index a0eabbb..e39c758 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -53,12 +53,14 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
   if (info_ptr == nullptr) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_read_struct(&png_ptr, nullptr, nullptr);
     fclose(fp);
     return image;
   }
   if (setjmp(png_jmpbuf(png_ptr))) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
     fclose(fp);
     return image;
   }
@@ -78,23 +80,29 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
   if (png_get_bit_depth(png_ptr, info_ptr) != 8) {
     status.SetError(il::Error::Unimplemented);
     IL_SET_SOURCE(status);
+    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
     fclose(fp);
     return image;
   }
 
+  png_bytep *row_pointers{(png_bytep *)malloc(sizeof(png_bytep) * height)};
+  unsigned long nb_colors{png_get_rowbytes(png_ptr, info_ptr) / width};
+  for (int ky = 0; ky < height; ++ky) {
+    row_pointers[ky] = (png_byte *)malloc(png_get_rowbytes(png_ptr, info_ptr));
+  }
+
   if (setjmp(png_jmpbuf(png_ptr))) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+    for (int ky = 0; ky < height; ky++) {
+      free(row_pointers[ky]);
+    }
+    free(row_pointers);
     fclose(fp);
     return image;
   }
 
-  png_bytep *row_pointers{(png_bytep *)malloc(sizeof(png_bytep) * height)};
-  unsigned long nb_colors{png_get_rowbytes(png_ptr, info_ptr) / width};
-  for (int ky = 0; ky < height; ++ky) {
-    row_pointers[ky] = (png_byte *)malloc(png_get_rowbytes(png_ptr, info_ptr));
-  }
-
   png_read_image(png_ptr, row_pointers);
 
   image.Resize(static_cast<il::int_t>(height), static_cast<il::int_t>(width),
-- 
2.43.0


From ce54771f703b6c6b95e9e1bb67bfee79680735f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 202/208] fix: savePng wrote out of bounds when there are not 3
 colors

---
 il/io/png/png.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index e39c758..021197c 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -131,6 +131,8 @@ il::Array3C<unsigned char> loadPng(const il::String &filename, il::io_t,
 
 void savePng(const il::Array3C<unsigned char> &image,
              const il::String &filename, il::io_t, il::Status &status) {
+  IL_EXPECT_FAST(image.size(2) >= 1 && image.size(2) <= 4);
+
   FILE *fp{fopen(filename.asCString(), "wb")};
   if (fp == nullptr) {
     status.SetError(il::Error::FilesystemFileNotFound);
@@ -170,11 +172,17 @@ void savePng(const il::Array3C<unsigned char> &image,
   const int bit_depth = 8;
   int color_type = 0;
   switch (image.size(2)) {
+    case 1:
+      color_type = PNG_COLOR_TYPE_GRAY;
+      break;
+    case 2:
+      color_type = PNG_COLOR_TYPE_GRAY_ALPHA;
+      break;
     case 3:
-      color_type = 2;
+      color_type = PNG_COLOR_TYPE_RGB;
       break;
     default:
-      IL_EXPECT_FAST(false);
+      color_type = PNG_COLOR_TYPE_RGB_ALPHA;
   }
   png_set_IHDR(png_ptr, info_ptr, width, height, bit_depth, color_type,
                PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE,
-- 
2.43.0


From c170b5754c4c6cf8f389af9d6d5d246ee219911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 203/208] fix: savePng leaked its buffers and the file

---
 il/io/png/png.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index 021197c..8498f8b 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -145,6 +145,7 @@ void savePng(const il::Array3C<unsigned char> &image,
   if (png_ptr == nullptr) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    fclose(fp);
     return;
   }
 
@@ -152,11 +153,15 @@ void savePng(const il::Array3C<unsigned char> &image,
   if (info_ptr == nullptr) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_write_struct(&png_ptr, nullptr);
+    fclose(fp);
     return;
   }
   if (setjmp(png_jmpbuf(png_ptr))) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    fclose(fp);
     return;
   }
 
@@ -164,6 +169,8 @@ void savePng(const il::Array3C<unsigned char> &image,
   if (setjmp(png_jmpbuf(png_ptr))) {
     status.SetError(il::Error::Undefined);
     IL_SET_SOURCE(status);
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    fclose(fp);
     return;
   }
 
@@ -190,13 +197,6 @@ void savePng(const il::Array3C<unsigned char> &image,
 
   png_write_info(png_ptr, info_ptr);
 
-  /* write bytes */
-  if (setjmp(png_jmpbuf(png_ptr))) {
-    status.SetError(il::Error::Undefined);
-    IL_SET_SOURCE(status);
-    return;
-  }
-
   png_bytep *row_pointers{(png_bytep *)malloc(sizeof(png_bytep) * height)};
   for (il::int_t ky = 0; ky < image.size(0); ++ky) {
     row_pointers[ky] = (png_byte *)malloc(png_get_rowbytes(png_ptr, info_ptr));
@@ -211,17 +211,24 @@ void savePng(const il::Array3C<unsigned char> &image,
     }
   }
 
-  png_write_image(png_ptr, row_pointers);
-
-  /* end write */
+  /* write bytes */
   if (setjmp(png_jmpbuf(png_ptr))) {
-    status.SetError(il::Error::Undefined);
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
     IL_SET_SOURCE(status);
+    png_destroy_write_struct(&png_ptr, &info_ptr);
+    for (il::int_t ky = 0; ky < image.size(0); ky++) {
+      free(row_pointers[ky]);
+    }
+    free(row_pointers);
+    fclose(fp);
     return;
   }
 
+  png_write_image(png_ptr, row_pointers);
+
   png_write_end(png_ptr, nullptr);
 
+  png_destroy_write_struct(&png_ptr, &info_ptr);
   for (il::int_t ky = 0; ky < image.size(0); ky++) {
     free(row_pointers[ky]);
   }
-- 
2.43.0


From c5e096dc789c9879081b25340f58f64a989acfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 204/208] fix: savePng did not report that the end of the file
 was not written

---
 il/io/png/png.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/io/png/png.cpp b/il/io/png/png.cpp
index 8498f8b..80725df 100644
--- a/il/io/png/png.cpp
+++ b/il/io/png/png.cpp
@@ -234,7 +234,11 @@ void savePng(const il::Array3C<unsigned char> &image,
   }
   free(row_pointers);
 
-  fclose(fp);
+  if (fclose(fp) != 0) {
+    status.SetError(il::Error::FilesystemCanNotCloseFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
   status.SetOk();
 }
 }  // namespace il
-- 
2.43.0


From eff45498e6ef4dd2380d5ff2108f61ceb550a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 205/208] fix: Pardiso::SolveIterative returned the solution of
 a previous factorization when its iterations were stopped

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index d1f03bb..ac148f2 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -389,6 +389,18 @@ inline il::Array<double> Pardiso::SolveIterative(
 
   pardiso_iparm_[3] = old_solver;
 
+  // The iterations have been stopped before their convergence. As the matrix
+  // might not have been factorized again, x can be the solution of the system
+  // for its previous factorization: use the direct solver.
+  if (pardiso_iparm_[19] < 0) {
+    PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
+        pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_,
+        &phase, &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
+        &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
+        const_cast<double *>(y.data()), x.Data(), &error);
+    IL_EXPECT_FAST(error == 0);
+  }
+
   return x;
 }
 
-- 
2.43.0


From 1e74b8dd33c69a06f230a4efb96fa8c5e74fc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 206/208] fix: tell a duplicate key from a malformed table

il::Error::ParseTable and il::Error::ParseDuplicateKey had the same value.
---
 il/container/info/Status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index a6e68e5..fdc6cce 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -63,7 +63,7 @@ enum class Error : unsigned short {
   ParseHeterogeneousArray = 1 * 256 + 12,
   ParseArray = 1 * 256 + 13,
   ParseTable = 1 * 256 + 14,
-  ParseDuplicateKey = 1 * 256 + 14,
+  ParseDuplicateKey = 1 * 256 + 17,
   ParseKey = 1 * 256 + 15,
   ParseValue = 1 * 256 + 16,
   //
-- 
2.43.0


From 0a2461d5463426500ee6d6f4625aa83f4ae8c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:23 +0000
Subject: [PATCH 207/208] fix: keep the children of a tree node beyond the
 sixth one

The children of a node were recorded in the 8 bits of an unsigned char, of
which 2 are already used. As a consequence, an il::Tree<T, 8> lost the child
6 and 7 of all its nodes.
---
 il/container/tree/Tree.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 7a7e777..9bec8e7 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -35,18 +35,21 @@ namespace il {
 
 template <typename T, il::int_t n>
 class Tree {
+  static_assert(n >= 1 && n <= 62, "il::Tree<T, n>: n must be in [1, 62]");
+
  private:
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    // The bit 0 is set for a valid node, the bit 1 for a node with a value and
+    // the bit 2 + i for a node which has the child i
+    unsigned long long flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? 1u : 0u} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -141,7 +144,7 @@ bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
 
 template <typename T, il::int_t n>
 il::SmallArray<il::int_t, n> Tree<T, n>::children(il::spot_t s) const {
-  il::int_t flag = tree_[s.index].flag / 4;
+  unsigned long long flag = tree_[s.index].flag / 4;
   il::SmallArray<il::int_t, n> ans{};
   il::int_t i = 0;
   while (flag != 0) {
@@ -158,8 +161,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
-  tree_[s.index].flag = tree_[s.index].flag | flag;
+  tree_[s.index].flag |= 1ull << (2 + i);
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
   }
-- 
2.43.0


From e3cd912cd6dc90f63c39e5c67f1f6588e4e501e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:23 +0000
Subject: [PATCH 208/208] fix: build a tree whose nodes have at most one child
 from its depth

The number of nodes to reserve was computed with a division by n - 1.
---
 il/container/tree/Tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 9bec8e7..17dddd9 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -77,11 +77,10 @@ Tree<T, n>::Tree() : tree_{1, il::emplace, true} {}
 
 template <typename T, il::int_t n>
 Tree<T, n>::Tree(il::int_t depth) {
-  il::int_t m = n;
+  il::int_t m = 1;
   for (il::int_t k = 0; k < depth; ++k) {
-    m *= n;
+    m = n * m + 1;
   }
-  m = (m - 1) / (n - 1);
   tree_.Reserve(m);
   tree_.Resize(1, il::emplace, true);
 };
-- 
2.43.0

