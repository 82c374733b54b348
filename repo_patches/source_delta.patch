From 89aaf811e19b0b95e16f532f740d602be433a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 01/91] fix: comparison of nil with nil or with an array
 dereferenced a null pointer

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..5d01430 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,9 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // nil has no heap; it equals only nil
+        if (!heap() || !iVar.heap())
+            return heap() != iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +554,9 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // nil has no heap; it comes before any array
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From 88a2846708d95a811524f7a21ff1dca5214cadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 02/91] fix: ordering of arrays was not lexicographic, so
 neither antisymmetric nor total

---
 lube/heap.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..2dbe44d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -457,11 +457,22 @@ bool Heap::neq(IHeap* iHeap)
 bool Heap::lt(IHeap* iHeap)
 {
     if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
+    {
+        int cmp = std::memcmp(
+            ptrchar(), iHeap->ptrchar(), std::min(size(), iHeap->size())
+        );
+        return cmp ? (cmp < 0) : (size() < iHeap->size());
+    }
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
-        if (at(i) < iHeap->at(i))
+    {
+        var a = at(i);
+        var b = iHeap->at(i);
+        if (a < b)
             return true;
-    return false;
+        if (b < a)
+            return false;
+    }
+    return size() < iHeap->size();
 }
 
 
-- 
2.43.0


From 70dee6083d82f104b09b3f4e52c202ed7cde346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 03/91] fix: comparison of views compared their shapes and
 offsets, not their elements

---
 lube/heap.cpp | 2 +-
 lube/heap.h   | 1 +
 lube/view.cpp | 8 ++++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 2dbe44d..4c51878 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -447,7 +447,7 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
+    for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
     return false;
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..01004dd 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,7 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual var at(int iIndex, bool iKey=false) const;
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..d538583 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -126,6 +126,14 @@ int View::offset(int iOffset)
 }
 
 
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
 int& View::shape(int iDim) const
 {
     int index = iDim*2 + 1;
-- 
2.43.0


From 48632ddca294ecf8a017921b8fea7563c5496b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 04/91] fix: comparison of maps ignored the keys

---
 lube/heap.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 4c51878..7ff0f66 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -447,6 +447,15 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
+    // Maps have keys to compare too; nothing else is equal to a map
+    if (type() == TYPE_PAIR || iHeap->type() == TYPE_PAIR)
+    {
+        if (type() != iHeap->type())
+            return true;
+        for (int i=0; i<size(); i++)
+            if (at(i, true) != iHeap->at(i, true))
+                return true;
+    }
     for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
@@ -463,8 +472,20 @@ bool Heap::lt(IHeap* iHeap)
         );
         return cmp ? (cmp < 0) : (size() < iHeap->size());
     }
+    bool pairs = (type() == TYPE_PAIR);
+    if (pairs != (iHeap->type() == TYPE_PAIR))
+        return !pairs;
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
     {
+        if (pairs)
+        {
+            var a = at(i, true);
+            var b = iHeap->at(i, true);
+            if (a < b)
+                return true;
+            if (b < a)
+                return false;
+        }
         var a = at(i);
         var b = iHeap->at(i);
         if (a < b)
-- 
2.43.0


From 8f4416c283f3b092265300836b4e89bda1bbb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 05/91] fix: copying an array of complex threw

---
 lube/heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 7ff0f66..141448d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -297,6 +297,14 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        for (int i=0; i<mSize; i++)
+            mData.cfp[i] = iHeap->mData.cfp[i];
+        break;
+    case TYPE_CDOUBLE:
+        for (int i=0; i<mSize; i++)
+            mData.cdp[i] = iHeap->mData.cdp[i];
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From 38152b0b0d688d7d079ed519f669955ad617c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 06/91] fix: copy() of an array element returned a live
 reference to it, so remove() returned the wrong value

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 5d01430..8145b1e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -590,11 +590,14 @@ bool var::operator <(var iVar) const
 var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
+    var r;
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
-- 
2.43.0


From cc4af933019645152d4efe669b3d29802f1010ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 07/91] fix: remove() on a map left the values with the wrong
 keys

---
 lube/var.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 8145b1e..7fd19a6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1156,8 +1156,13 @@ var var::remove(int iIndex)
         throw std::range_error("remove(): index too large");
 
     var r = at(iIndex).copy();
+    bool pairs = heap() && atype<pair>();
     for (int i=iIndex+1; i<size(); i++)
+    {
+        if (pairs)
+            heap()->key(i-1) = heap()->key(i);
         at(i-1) = at(i);
+    }
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From 0aa66dbfe8841405ad0f0e7227d0b6abd96325bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 08/91] fix: pop() returned a reference to the popped element;
 pop() and shift() of an empty array made its size -1

---
 lube/heap.cpp | 3 +++
 lube/var.cpp  | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 141448d..5a572a9 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -511,6 +511,9 @@ bool Heap::lt(IHeap* iHeap)
  */
 var Heap::shift()
 {
+    if (mSize == 0)
+        throw std::range_error("Heap::shift(): array is empty");
+
     // Move syntax is memmove(dest, src, n)
     //
     // var and pair use placement delete on the overwritten element (to delete
diff --git a/lube/var.cpp b/lube/var.cpp
index 7fd19a6..48723af 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1100,7 +1100,12 @@ var& var::push(var iVar)
 
 var var::pop()
 {
-    var r = at(size()-1);
+    if (defined() && size() == 0)
+        throw std::range_error("pop(): array is empty");
+
+    // Assigning dereferences; initialising would retain a reference
+    var r;
+    r = at(size()-1);
     resize(size()-1);
     return r;
 }
-- 
2.43.0


From cdde6ecc2e8d858aaa3ac699a318589e9eae73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 09/91] fix: shrinking an array retained the elements removed,
 and growing it again exposed them

---
 lube/heap.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 5a572a9..636736b 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -226,6 +226,17 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+
+    // When shrinking, release whatever is held beyond the new size
+    if (mType == TYPE_VAR)
+        for (int i=iSize; i<mSize; i++)
+            mData.vp[i] = nil;
+    else if (mType == TYPE_PAIR)
+        for (int i=iSize; i<mSize; i++)
+        {
+            mData.pp[i].key = nil;
+            mData.pp[i].val = nil;
+        }
     mSize = iSize;
 
     // strings have an extra '\0'
-- 
2.43.0


From 06574f348aea7b898774e522df342af98773ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 10/91] fix: insert() threw for an array element, and read the
 wrong value or overflowed for a value in the array itself

---
 lube/var.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 48723af..0f55024 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1120,13 +1120,17 @@ var& var::insert(var iVar, int iIndex)
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
+    // Assigning dereferences; the value could be in the array being moved
+    var v;
+    v = iVar;
+
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
             at(i) = at(i-1);
-        at(iIndex) = iVar;
+        at(iIndex) = v;
     }
     else if (heap() && atype<pair>())
     {
@@ -1137,17 +1141,19 @@ var& var::insert(var iVar, int iIndex)
             heap()->key(i) = heap()->key(i-1);
             at(i) = at(i-1);
         }
-        heap()->key(iIndex) = iVar;
+        heap()->key(iIndex) = v;
         at(iIndex).clear();
     }
     else
     {
         // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+        if (v.heap())
+            v = v.copy();
+        resize(size()+v.size());
+        for (int i=size()-1; i>iIndex+v.size()-1; i--)
+            at(i) = at(i-v.size());
+        for (int i=0; i<v.size(); i++)
+            at(iIndex+i) = v.at(i);
     }
 
     return *this;
-- 
2.43.0


From 0620129cf47dcc996635e5975999975bbdc49f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 11/91] fix: unshift() reinterpreted the value instead of
 converting it

---
 lube/heap.cpp | 19 ++++++++++---------
 lube/var.cpp  |  6 +++++-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 636736b..ebab35a 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -588,44 +588,45 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
+    if (mType == TYPE_PAIR)
+        throw error("Heap::unshift(): Can't unshift a pair");
+
     resize(mSize+1);
     switch (mType)
     {
     case TYPE_CHAR:
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = iVar.cast<char>();
         break;
     case TYPE_INT:
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = iVar.cast<int>();
         break;
     case TYPE_LONG:
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = iVar.cast<long>();
         break;
     case TYPE_FLOAT:
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = iVar.cast<float>();
         break;
     case TYPE_DOUBLE:
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = iVar.cast<double>();
         break;
     case TYPE_CFLOAT:
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = iVar.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = iVar.cast<cdouble>();
         break;
     case TYPE_VAR:
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
         break;
-    case TYPE_PAIR:
-        throw error("Heap::unshift(): Can't unshift a pair");
     default:
         throw error("Heap::unshift(): Unknown type");
     }
diff --git a/lube/var.cpp b/lube/var.cpp
index 0f55024..8589596 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1198,7 +1198,11 @@ var& var::unshift(var iVar)
 
     if (!heap())
         array();
-    heap()->unshift(iVar);
+
+    // Assigning dereferences; the value could be in the array being moved
+    var v;
+    v = iVar;
+    heap()->unshift(v);
     return *this;
 }
 
-- 
2.43.0


From 879952efd3563954a19b95f7a938546ee125dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 12/91] fix: elements of a view of an array of var were read
 from the wrong storage

---
 lube/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/heap.h b/lube/heap.h
index 01004dd..8bcdd37 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,9 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual var at(int iIndex, bool iKey=false) const;
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
-- 
2.43.0


From a2b3ebd7d6e5b58ad807dee4dede11b503dca96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 13/91] fix: a view constructor that threw leaked its
 allocation

---
 lube/heap.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index ebab35a..5c92410 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -58,6 +58,7 @@ Heap::Heap()
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -215,10 +216,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
-- 
2.43.0


From c2f9ce0e3b34586be6ee6cb045ac0c40142db902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 14/91] fix: appending raw data to an unset or differently
 typed var corrupted memory

---
 lube/var.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 8589596..1b284e6 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1047,6 +1047,14 @@ var var::atypeStr() const
 #define APPEND(T)                                               \
     template<> var& var::append<T>(int iSize, const T* iData)   \
     {                                                           \
+        if (!defined())                                         \
+        {                                                       \
+            var v;                                              \
+            v.attach(new Heap(iSize, iData));                   \
+            return *this = v;                                   \
+        }                                                       \
+        if (!atype<T>())                                        \
+            throw error("append(): Incompatible types");        \
         array();                                                \
         heap()->append(iSize, iData);                           \
         return *this;                                           \
@@ -1059,9 +1067,7 @@ APPEND(cdouble)
 var& var::append(const char* iStr)
 {
     // It should be a special case to avoid the strlen
-    array();
-    heap()->append(std::strlen(iStr), iStr);
-    return *this;
+    return append<char>(std::strlen(iStr), iStr);
 }
 
 
-- 
2.43.0


From 7742710b69ad1795a210f3860c8da9046e186c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 15/91] fix: changing the size of a view corrupted its shape

---
 lube/heap.h   |  2 ++
 lube/view.cpp | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index 8bcdd37..47980c5 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -224,6 +224,8 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual void resize(int iSize);
+        virtual var shift();
         virtual var* deref(ind iIndex) {
             return mHeap->deref(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index d538583..3001afe 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -42,7 +42,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -71,7 +71,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -93,7 +93,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -117,6 +117,22 @@ View::~View()
 }
 
 
+/**
+ * The size of a view is fixed by its shape.  In the absence of these, the
+ * shape itself would get resized or shifted.
+ */
+void View::resize(int iSize)
+{
+    throw error("View::resize(): cannot resize a view");
+}
+
+
+var View::shift()
+{
+    throw error("View::shift(): cannot resize a view");
+}
+
+
 int View::offset(int iOffset)
 {
     if (iOffset + size() > mHeap->size())
-- 
2.43.0


From 4c0a4f2c2fd950cd44f89c286df1cd996fc4344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 16/91] fix: a view with a negative offset or dimension reached
 outside its array

---
 lube/view.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/view.cpp b/lube/view.cpp
index 3001afe..af076b9 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -53,10 +53,15 @@ void View::setStrides(int iDim)
     if (iDim < 1)
         throw error("View::setStrides(): view must have dim > 0");
 
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): negative offset");
+
     // The second of each pair is the stride
     int p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
     }
@@ -135,6 +140,8 @@ var View::shift()
 
 int View::offset(int iOffset)
 {
+    if (iOffset < 0)
+        throw error("View::offset(): negative offset");
     if (iOffset + size() > mHeap->size())
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
-- 
2.43.0


From 32bbd8659a259aedbbfc600b7f3ba0d8a6039c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 17/91] fix: reading byte 0xff from a stream on a var looked
 like end of file

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From 8a69c5c2344a7bc778c718079066c6dadd4727f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 18/91] fix: seeking a stream on a var ignored the end and
 reported success out of range

---
 lube/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..ae3a22e 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if (iPos < 0 || iPos > mVar.size())
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From 9741a3f8321a9ce3ec502e79779f3aa3a5248045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 19/91] fix: strip() wrote its result to memory already
 released

---
 lube/string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..eb92185 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -251,6 +251,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From 5a17de7f239690aa9368a420594277b7302a8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 20/91] fix: getline() appended a 0xff byte to a last line with
 no newline

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb92185..889ae80 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -124,6 +124,8 @@ var& var::getline(std::istream& iStream)
     while (!iStream.eof())
     {
         char c = iStream.get();
+        if (!iStream)
+            break;
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From 6d6a4e164e7b7a61979e84f7116a6e842ce45179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 21/91] fix: the sum or difference of two arrays was written to
 the first one, and the value returned was uninitialised

---
 lube/math.cpp | 78 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 8 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..d01c176 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -366,36 +366,60 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
+    bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
         blas::axpy(
             size, cfloat(1.0f,0.0f),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
         blas::axpy(
             size, cdouble(1.0,0.0),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -445,22 +469,60 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
+    bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
+        );
+        break;
+    case TYPE_CFLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
+        blas::axpy(
+            size, cfloat(-1.0f,0.0f),
+            iVar2.ptr<cfloat>(iOffset2),
+            oVar.ptr<cfloat>(iOffsetO)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
+        blas::axpy(
+            size, cdouble(-1.0,0.0),
+            iVar2.ptr<cdouble>(iOffset2),
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 3e13b8f79474f529716507370f306536cea18da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 22/91] fix: assigning an array to a view threw unless it was
 of float or double

---
 lube/math.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index d01c176..321782f 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -254,6 +254,21 @@ void Set::vector(
     int size = iVar2.size();
     switch(iVar1.atype())
     {
+    case TYPE_CHAR:
+        std::copy_n(
+            iVar2.ptr<char>(iOffset2), size, iVar1.ptr<char>(iOffset1)
+        );
+        break;
+    case TYPE_INT:
+        std::copy_n(
+            iVar2.ptr<int>(iOffset2), size, iVar1.ptr<int>(iOffset1)
+        );
+        break;
+    case TYPE_LONG:
+        std::copy_n(
+            iVar2.ptr<long>(iOffset2), size, iVar1.ptr<long>(iOffset1)
+        );
+        break;
     case TYPE_FLOAT:
         blas::copy(
             size,
@@ -268,6 +283,20 @@ void Set::vector(
             iVar1.ptr<double>(iOffset1)
         );
         break;
+    case TYPE_CFLOAT:
+        blas::copy(
+            size,
+            iVar2.ptr<cfloat>(iOffset2),
+            iVar1.ptr<cfloat>(iOffset1)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        blas::copy(
+            size,
+            iVar2.ptr<cdouble>(iOffset2),
+            iVar1.ptr<cdouble>(iOffset1)
+        );
+        break;
     default:
         throw error("Set::vector: Unknown type");
     }
-- 
2.43.0


From 601cd080c901493933270005f878cd3e08f2af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 23/91] fix: arithmetic with an array of one element used the
 address of the array as the value

---
 lube/func.cpp | 2 +-
 lube/math.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..b2e2859 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -267,7 +267,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2, tmp);
+            scalar(iVar1.at(i), iVar2.at(0), tmp);
         }
         return;
     }
diff --git a/lube/math.cpp b/lube/math.cpp
index 321782f..1581f90 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -570,7 +570,7 @@ void Mul::broadcast(var iVar1, var iVar2, var& oVar) const
     // it over the unary operator.
     if ((iVar2.dim() == 1) && (iVar2.size() == 1))
     {
-        scale(iVar1, iVar2, oVar, 0);
+        scale(iVar1, iVar2.at(0), oVar, 0);
         return;
     }
     else
-- 
2.43.0


From 7f94a39ad20eea84e55a7b552a30ae86a8ab0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 24/91] fix: the JSON reader swallowed the delimiter after a
 number, so could not read the end of an array or object

---
 lube/json.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..c481b0a 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -186,14 +186,13 @@ var JSON::doRaw(std::istream& iStream)
 {
     // Read up to a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    int c;
+    while ((c = iStream.peek()) != std::char_traits<char>::eof())
     {
-        if (isspace(c))
+        // Leave the delimiter for the caller
+        if (isspace(c) || strchr(",[]{}", c))
             break;
-        if (strchr(",[]{}", c))
-            break;
-        val.push(c);
+        val.push(static_cast<char>(iStream.get()));
     }
 
     // These values have special meanings
-- 
2.43.0


From 8dc23dd9dc6bc5b52ef5f886b39fc798dba0e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 25/91] fix: the JSON reader truncated real numbers to integers

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index c481b0a..ef16712 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return d;
 
     // Failed
-- 
2.43.0


From 2faafada229a08cd8acba2ab9e71534254e3a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 26/91] fix: the JSON reader read a one element array as a
 scalar and an empty one as null, and refused arrays of mixed type

---
 lube/json.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index ef16712..998b3d6 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -107,9 +107,25 @@ var JSON::doObject(std::istream& iStream)
     return obj;
 }
 
+/** An array of numbers of the same type is stored as an array of that type */
+static var denseArray(var iArr)
+{
+    if (iArr.size() == 0 || iArr.at(0).type() == TYPE_ARRAY)
+        return iArr;
+    for (int i=1; i<iArr.size(); i++)
+        if (iArr.at(i).type() != iArr.at(0).type())
+            return iArr;
+    var dense = iArr.at(0).copy().array();
+    for (int i=1; i<iArr.size(); i++)
+        dense.push(iArr.at(i));
+    return dense;
+}
+
 var JSON::doArray(std::istream& iStream)
 {
+    // Elements can be of any type
     var arr;
+    arr.resize(0);
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -119,7 +135,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return denseArray(arr);
             break;
         case ',':
             iStream.get();
-- 
2.43.0


From 3a222ef4487faa657ce6953acde986d611fe4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 27/91] fix: the JSON writer did not escape quotes and
 backslashes, nor the reader accept an escaped backslash

---
 lube/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 998b3d6..fc57f00 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -164,6 +164,7 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
                 str.push(got);
                 break;
             default:
@@ -311,7 +312,13 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     {
     case TYPE_CHAR:
         iStream << "\"";
-        iStream << iVar.ptr<char>();
+        for (int i=0; i<iVar.size(); i++)
+        {
+            char c = *iVar.ptr<char>(i);
+            if (c == '\"' || c == '\\')
+                iStream << '\\';
+            iStream << c;
+        }
         iStream << "\"";
         break;
     case TYPE_PAIR:
-- 
2.43.0


From 3f49502db14768a9d256f289c362ec6bb4918f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 28/91] fix: formatting an array of complex printed the
 addresses of the elements

---
 lube/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index fc57f00..df27a86 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -368,7 +368,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From f848c3f370132413e68493fe2d2536bd4475fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 29/91] fix: functors on an array of double complex operated on
 the first element only

---
 lube/math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 1581f90..b288ccf 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -68,7 +68,8 @@ using namespace libube;
 
 
 /**
- * Report var type, but treating TYPE_CDOUBLE as a type rather than an array.
+ * Report var type, but treating a single TYPE_CDOUBLE as a type rather than
+ * an array.
  *
  * This avoids an infinite loop where arrays are always broadcasted, and
  * broadcasting calls the original unary operator again.
@@ -76,7 +77,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From 48ebbedc48fa423fdc54cc11ca4cd8ab443dfb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 30/91] fix: the DFT refused the double precision types

---
 lube/dft-mkl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..dcb3844 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -56,7 +56,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -125,13 +125,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -157,7 +157,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +191,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From 757225b3c0944865ccce887efce1c84147c4f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 31/91] fix: repeating an option that takes no argument threw

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..8382146 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,7 +97,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From b5fc37b8155e4e396e68e65c2b6c981d6964cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 32/91] fix: audio files of more than one channel could not be
 read, and were written from beyond the end of the array

---
 lube/sndfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..a11036a 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -51,7 +51,7 @@ var sndfile::read(var iFile)
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
     data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
+    int nGot = sf_read_float(snd, data.ptr<float>(), size);
     if (nGot != size)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
@@ -77,10 +77,10 @@ void sndfile::write(var iFile, var iVar)
     if (iVar.dim() > 1)
     {
         var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
+        n = (int)sf_write_float(snd, tr.ptr<float>(), tr.size());
     }
     else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
+        n = (int)sf_write_float(snd, iVar.ptr<float>(), iVar.size());
     sf_close(snd);
     if (iVar.size() != n)
         throw error("sndfile::write: Size fuckup");
-- 
2.43.0


From a3cdb36f8c16ae0b9cf1725195878f42d4e74f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 33/91] fix: the text file writer quoted and escaped the lines,
 so they could not be read back

---
 lube/txtfile.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 404ac12..8843cb9 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -49,5 +49,12 @@ void txtfile::write(var iFile, var iVar)
     if (os.fail())
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-        os << iVar.at(i) << std::endl;
+    {
+        // The formatter would quote and escape a string
+        var line = iVar.at(i);
+        if (line && line.heap() && line.atype<char>())
+            os.write(line.str(), line.size()) << std::endl;
+        else
+            os << line << std::endl;
+    }
 }
-- 
2.43.0


From 2cea81692d565cbcd8a48ab3f50f26a46c8356d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 34/91] fix: a module that could not be used was left open

---
 lube/module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..7412751 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -35,7 +35,11 @@ module::module(var iType)
     // Find the factory function
     *(void **)(&mFactory) = dlsym(mHandle, "factory");
     if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    {
+        var e = dle;
+        dlclose(mHandle);
+        throw error(e);
+    }
 }
 
 
-- 
2.43.0


From b08fbac3ab40a2c636d7d8fc6afef5d0aff4d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 35/91] fix: formatting a view of double complex threw

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index df27a86..a5309ee 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -289,8 +289,8 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        // A var is never a cdouble, but can be a reference to one
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
-- 
2.43.0


From d74e7d33d17581e0f516c674caff6e4c2d048d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 36/91] fix: arithmetic on arrays of different sizes read and
 wrote beyond the end of them

---
 lube/func.cpp | 26 +++++++++++++++++---------
 lube/func.h   |  1 +
 lube/math.cpp |  7 +++++++
 lube/math.h   |  1 +
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index b2e2859..1d93fc5 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -248,6 +248,21 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
+/**
+ * Checks that iVar2 fits a whole number of times into iVar1, i.e., that the
+ * trailing dimensions match.
+ */
+bool ArithmeticFunctor::conformant(var iVar1, var iVar2) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            return false;
+    return true;
+}
+
+
 /**
  * Arithmetic broadcaster
  *
@@ -278,15 +293,8 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         throw error("var::broadcast: input dimension too large");
     if (iVar1.atype() != iVar2.atype())
         throw error("var::broadcast: types must match (for now)");
-#if 0
-    // Does not work for matrix multiplication
-    for (int i=1; i<dim2; i++)
-    {
-        // The dimensions should match
-        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
-            throw error("var::broadcast: dimension mismatch");
-    }
-#endif
+    if (!conformant(iVar1, iVar2))
+        throw error("var::broadcast: dimension mismatch");
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
diff --git a/lube/func.h b/lube/func.h
index f267c34..909ed0f 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -90,6 +90,7 @@ namespace libube
     class ArithmeticFunctor : public BinaryFunctor
     {
     protected:
+        virtual bool conformant(var iVar1, var iVar2) const;
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
     };
 
diff --git a/lube/math.cpp b/lube/math.cpp
index b288ccf..3ae2993 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -748,6 +748,13 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+bool Dot::conformant(var iVar1, var iVar2) const
+{
+    // vector() checks the case of matrix multiplication
+    return iVar2.dim() != 1 || ArithmeticFunctor::conformant(iVar1, iVar2);
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..178c563 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -161,6 +161,7 @@ namespace libube
     class Dot : public ArithmeticFunctor
     {
     protected:
+        bool conformant(var iVar1, var iVar2) const;
         var alloc(var iVar1, var iVar2) const;
         void vector(
             var iVar1, ind iOffset1,
-- 
2.43.0


From c56e2faa582bb8b4a7891922f88632d2802f2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 37/91] fix: resize and array on a reference to a scalar
 element left the reference detached (insert, unshift, append on an element
 threw or crashed)

---
 lube/var.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 1b284e6..3153f68 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -916,6 +916,10 @@ var& var::array()
         v.mType = TYPE_ARRAY;
         v.attach(new Heap(1, tmp.mType));
         v.at(0) = tmp;
+
+        // If this was a reference to v it's now a copy of the old value
+        if (&v != this)
+            *this = v;
     }
     return *this;
 }
@@ -944,6 +948,10 @@ var& var::resize(int iSize)
                 v.attach(new Heap(iSize, tmp.mType));
                 v.at(0) = tmp;
             }
+
+            // If this was a reference to v it's now a copy of the old value
+            if (&v != this)
+                *this = v;
         }
     }
     else
-- 
2.43.0


From b80725ffb1cbc0b697a3331949b84f1dab4791e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 38/91] fix: comparing cdouble arrays recursed without end

---
 lube/heap.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 5c92410..0fcbd6d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -473,6 +473,16 @@ bool Heap::neq(IHeap* iHeap)
             if (at(i, true) != iHeap->at(i, true))
                 return true;
     }
+
+    // An element of a cdouble array is itself an array of one cdouble
+    if (type() == TYPE_CDOUBLE && iHeap->type() == TYPE_CDOUBLE)
+    {
+        for (int i=0; i<size(); i++)
+            if (*ptrcdouble(i) != *iHeap->ptrcdouble(i))
+                return true;
+        return false;
+    }
+
     for (int i=0; i<size(); i++)
         if (at(i) != iHeap->at(i))
             return true;
@@ -492,6 +502,20 @@ bool Heap::lt(IHeap* iHeap)
     bool pairs = (type() == TYPE_PAIR);
     if (pairs != (iHeap->type() == TYPE_PAIR))
         return !pairs;
+
+    // An element of a cdouble array is itself an array of one cdouble
+    if (type() == TYPE_CDOUBLE && iHeap->type() == TYPE_CDOUBLE)
+    {
+        for (int i=0; i<std::min(size(), iHeap->size()); i++)
+        {
+            double a = std::abs(*ptrcdouble(i));
+            double b = std::abs(*iHeap->ptrcdouble(i));
+            if (a != b)
+                return a < b;
+        }
+        return size() < iHeap->size();
+    }
+
     for (int i=0; i<std::min(size(), iHeap->size()); i++)
     {
         if (pairs)
-- 
2.43.0


From a94cc2105d7f98500bc56faa66b08156597ec121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 39/91] fix: converting between complex types dropped the
 imaginary part (also when moving elements of a cdouble array)

---
 lube/var.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3153f68..d02cac3 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -652,6 +652,29 @@ ind var::atype() const
 }
 
 
+/**
+ * Convert a complex number.  Only the real part goes into a real type, but
+ * nothing is lost when converting to another complex type.
+ */
+template <class T>
+static T castComplex(cdouble iData)
+{
+    return static_cast<T>(iData.real());
+}
+
+template <>
+cfloat castComplex<cfloat>(cdouble iData)
+{
+    return cfloat(iData);
+}
+
+template <>
+cdouble castComplex<cdouble>(cdouble iData)
+{
+    return iData;
+}
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
@@ -698,10 +721,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = castComplex<T>(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = castComplex<T>(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From e7baa255cb9da5fba8410d3b52eb13eee16a23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 40/91] fix: Assigning an element of an array to itself
 corrupted it

---
 lube/var.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index d02cac3..d84932d 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -325,6 +325,9 @@ var& var::operator =(var iVar)
     }
     else
     {
+        // The new value could be a reference to this very var
+        iVar.dereference();
+
         // Not a reference.  Record whether the old value was a heap
         // allocation. If so, detach it after attaching the new value.
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
-- 
2.43.0


From 86c06b7caef7d79bb63864311539703d32e979ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:44 +0000
Subject: [PATCH 41/91] fix: Reading an element of a view could write into the
 view

---
 lube/var.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index d84932d..290112e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1345,11 +1345,15 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
-        return r;
+        // Do the housekeeping here.  It's not an assignment: were the array
+        // a view, operator=() could write r into it
+        IHeap* tmp = mData.hp;
+        mData = r.mData;
+        mType = r.mType;
+        attach();
+
+        // If this was the last holder of the array then r has gone with it
+        return detach(tmp) ? r : *this;
     }
     else
     {
-- 
2.43.0


From 0a183c7d1314e47907592e314e80f0670f951b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 42/91] fix: at() on a reference to an element returned the
 wrong element

---
 lube/var.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 290112e..e7f9416 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1325,6 +1325,7 @@ var var::reference(int iIndex) const
     if (type() != TYPE_ARRAY)
         throw error("var::reference: cannot reference non array");
     var v(*this);
+    v.dereference();
     v.mType = -iIndex-1;
     return v;
 }
-- 
2.43.0


From d6ca9b4f2388ab0ceda89e56e8b5643cdb003f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:49 +0000
Subject: [PATCH 43/91] fix: Assigning a one element view of cdouble recursed
 endlessly

---
 lube/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 3ae2993..748ba02 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -237,7 +237,9 @@ void Set::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         *oVar.ptr<cfloat>() = iVar2.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = iVar2.cast<cdouble>();
+        // A cast would copy, and hence set, a cdouble that is a view
+        *oVar.ptr<cdouble>() = iVar2.atype<cdouble>() ?
+            iVar2.get<cdouble>() : iVar2.cast<cdouble>();
         break;
     default:
         throw error("Set::scalar: Unknown type");
-- 
2.43.0


From 2e796ffc89429384921fbc934f39a681c1c5cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 44/91] fix: casting a complex double to another type returned
 the bits of a pointer

---
 lube/var.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index e7f9416..a1b2d46 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -702,6 +702,13 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         return;
     }
 
+    // A single cdouble is an array, but is a scalar as far as casts go
+    if (iVar.heap() && iVar.atype<cdouble>() && (iVar.size() == 1))
+    {
+        oVar = castComplex<T>(iVar.get<cdouble>());
+        return;
+    }
+
     // Everything else gets cast<>ed
     switch (iVar.type())
     {
-- 
2.43.0


From 02abc0b499769c4b7e8437f1355df768c7387882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:05 +0000
Subject: [PATCH 45/91] fix: insert() of a view of the array itself inserted
 elements already moved

---
 lube/var.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a1b2d46..d400f4f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1194,13 +1194,13 @@ var& var::insert(var iVar, int iIndex)
     else
     {
         // It's a fundamental type, insert the whole array
-        if (v.heap())
-            v = v.copy();
-        resize(size()+v.size());
-        for (int i=size()-1; i>iIndex+v.size()-1; i--)
-            at(i) = at(i-v.size());
-        for (int i=0; i<v.size(); i++)
-            at(iIndex+i) = v.at(i);
+        var c;
+        c = v.copy();
+        resize(size()+c.size());
+        for (int i=size()-1; i>iIndex+c.size()-1; i--)
+            at(i) = at(i-c.size());
+        for (int i=0; i<c.size(); i++)
+            at(iIndex+i) = c.at(i);
     }
 
     return *this;
-- 
2.43.0


From 6c85b4dcabc1505bb792eb329b2292839c9a9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 46/91] fix: an element of a cdouble array compared different
 from an equal cdouble, so index() could not find one

---
 lube/var.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index d400f4f..dd179ec 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -501,6 +501,16 @@ var& var::varderef()
 }
 
 
+/**
+ * A cdouble is too big for a var, so it's an array of one; yet an element of a
+ * cdouble array has a scalar type.  They need to compare as the same thing.
+ */
+static bool singleCDouble(const var& iVar)
+{
+    return iVar.defined() && iVar.atype<cdouble>() && (iVar.size() == 1);
+}
+
+
 /**
  * Negation operator
  *
@@ -510,6 +520,8 @@ var& var::varderef()
  */
 bool var::operator !=(var iVar) const
 {
+    if (singleCDouble(*this) && singleCDouble(iVar))
+        return (get<cdouble>() != iVar.get<cdouble>());
     if (type() != iVar.type())
         return true;
     if (size() != iVar.size())
@@ -551,6 +563,8 @@ bool var::operator !=(var iVar) const
  */
 bool var::operator <(var iVar) const
 {
+    if (singleCDouble(*this) && singleCDouble(iVar))
+        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
     if (type() != iVar.type())
         return (type() < iVar.type());
 
-- 
2.43.0


From 52c71071d88d3f298f655803e947547e132f841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 47/91] fix: a view of a string and a string compared by
 different orders

---
 lube/heap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 0fcbd6d..3049c98 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -492,7 +492,7 @@ bool Heap::neq(IHeap* iHeap)
 
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
     {
         int cmp = std::memcmp(
             ptrchar(), iHeap->ptrchar(), std::min(size(), iHeap->size())
-- 
2.43.0


From 486d3599754c03efa215e7178990ebfd85b87a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 48/91] fix: the order of characters over 127 differed from
 that of strings of them, so ordering was not transitive

---
 lube/math.cpp | 3 ++-
 lube/var.cpp  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 748ba02..bf0a04b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1297,7 +1297,8 @@ void Sort::vector(var iVar, var& oVar) const
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);
+        std::sort(reinterpret_cast<unsigned char*>(iVar.ptr<char>()),
+                  reinterpret_cast<unsigned char*>(iVar.ptr<char>())+size);
         break;
     case TYPE_INT:
         std::sort(iVar.ptr<int>(), iVar.ptr<int>()+size);
diff --git a/lube/var.cpp b/lube/var.cpp
index dd179ec..8dd500a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -576,7 +576,9 @@ bool var::operator <(var iVar) const
             return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
-        return (get<char>() < iVar.get<char>());
+        // As in a string, where the order is that of the bytes
+        return (static_cast<unsigned char>(get<char>()) <
+                static_cast<unsigned char>(iVar.get<char>()));
     case TYPE_INT:
         return (get<int>() < iVar.get<int>());
     case TYPE_LONG:
-- 
2.43.0


From 0bf6832a5cbc8964d7a647e3400cd8773579200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 49/91] fix: moving elements of an array or map wrote through
 those that were views

---
 lube/var.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 8dd500a..2d1f0ac 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1187,13 +1187,15 @@ var& var::insert(var iVar, int iIndex)
     var v;
     v = iVar;
 
+    // Elements are cleared before they are moved to: assigning to an element
+    // that is a view would write through it.
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
-            at(i) = at(i-1);
-        at(iIndex) = v;
+            at(i).clear() = at(i-1);
+        at(iIndex).clear() = v;
     }
     else if (heap() && atype<pair>())
     {
@@ -1201,10 +1203,10 @@ var& var::insert(var iVar, int iIndex)
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
         {
-            heap()->key(i) = heap()->key(i-1);
-            at(i) = at(i-1);
+            heap()->key(i).clear() = heap()->key(i-1);
+            at(i).clear() = at(i-1);
         }
-        heap()->key(iIndex) = v;
+        heap()->key(iIndex).clear() = v;
         at(iIndex).clear();
     }
     else
@@ -1231,10 +1233,14 @@ var var::remove(int iIndex)
 
     var r = at(iIndex).copy();
     bool pairs = heap() && atype<pair>();
+    bool vars = heap() && atype<var>();
     for (int i=iIndex+1; i<size(); i++)
     {
         if (pairs)
-            heap()->key(i-1) = heap()->key(i);
+            heap()->key(i-1).clear() = heap()->key(i);
+        if (pairs || vars)
+            // If it were a view, assigning would write through it
+            at(i-1).clear();
         at(i-1) = at(i);
     }
     resize(size()-1);
-- 
2.43.0


From 74e189f72dafea936848134b544d3afc3f1c020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:24 +0000
Subject: [PATCH 50/91] fix: unshift() converted the value after moving the
 array, corrupting it if that threw or the value was in it

---
 lube/heap.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 3049c98..a731da3 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -613,6 +613,20 @@ void Heap::unshift(var iVar)
     if (mType == TYPE_PAIR)
         throw error("Heap::unshift(): Can't unshift a pair");
 
+    // Convert before moving anything: it can throw, or the value can be in the
+    // array being moved.
+    switch (mType)
+    {
+    case TYPE_CHAR: iVar = var(iVar.cast<char>()); break;
+    case TYPE_INT: iVar = var(iVar.cast<int>()); break;
+    case TYPE_LONG: iVar = var(iVar.cast<long>()); break;
+    case TYPE_FLOAT: iVar = var(iVar.cast<float>()); break;
+    case TYPE_DOUBLE: iVar = var(iVar.cast<double>()); break;
+    case TYPE_CFLOAT: iVar = var(iVar.cast<cfloat>()); break;
+    case TYPE_CDOUBLE: iVar = var(iVar.cast<cdouble>()); break;
+    default: break;
+    }
+
     resize(mSize+1);
     switch (mType)
     {
-- 
2.43.0


From c0588babc3619ccc50d8f76ed1cee5325c1f563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 51/91] fix: putting back into a stream on a variable that had
 shrunk made the variable grow

---
 lube/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index ae3a22e..4371a7d 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -72,7 +72,8 @@ int varbuf::pbackfail(int iInt)
 {
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
-    if (mInd > 0)
+    // If the var has shrunk there may be nothing there.
+    if (mInd > 0 && mInd <= mVar.size())
         return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
-- 
2.43.0


From dc766df558e235c55acd1f836fccddc9b7cb5d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 52/91] fix: string functions threw on nested arrays unless in
 place

---
 lube/string.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 889ae80..41953ca 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -81,8 +81,12 @@ void StringFunctor::broadcast(var iVar, var& oVar) const
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
+        var elem = iVar.at(i);
         var ref = oVar.at(i);
-        operator()(iVar.at(i), ref);
+        if (!ref && elem.heap() && !elem.atype<char>())
+            // A nested array; alloc() only does the outermost one
+            ref = alloc(elem);
+        operator()(elem, ref);
     }
 }
 
-- 
2.43.0


From 6948f80e1efb72a7190786b3569953d9957fc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 53/91] fix: the string functions that return a new map lost
 its keys

---
 lube/heap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index a731da3..352946d 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -75,6 +75,10 @@ Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
     resize(iHeap.size());
     if (!iAllocOnly)
         copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+    else if (mType == TYPE_PAIR)
+        // The keys of a map are more like its shape than its contents
+        for (int i=0; i<mSize; i++)
+            key(i) = reinterpret_cast<const Heap*>(&iHeap)->mData.pp[i].key;
 }
 
 
-- 
2.43.0


From 0e0f09f9d85c254297f59aacbd0e22fab3642e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 54/91] fix: stripping a string of white space only wrote
 before its start

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 41953ca..cdbc939 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -242,7 +242,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
-- 
2.43.0


From 0dc1a4d100eec7a882680bc81fad278396e2d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 55/91] fix: casting an array or nil to a number gave the bits
 of a pointer

---
 lube/var.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2d1f0ac..1a9f8ec 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,39 @@ namespace libube
     }
 
 
+    /*
+     * The result of a cast, which broadcasts, as a single value
+     */
+    template<class T> static T castTo(const Cast<T>& iCast, const var& iVar)
+    {
+        const T t = 0;
+        static var v = t;
+        var r = iCast(iVar);
+        if ((r.type() != v.type()) || (r.size() != 1) || !r.atype<T>())
+            throw error("var::cast(): Not a single value");
+        return r.get<T>();
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castTo(castChar, *this);
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castTo(castInt, *this);
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castTo(castLong, *this);
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castTo(castFloat, *this);
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castTo(castDouble, *this);
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castTo(castCFloat, *this);
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castTo(castCDouble, *this);
     }
 }
 
-- 
2.43.0


From f8ada5a05ae16616088a16f57b98b667677163ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 56/91] fix: arithmetic on a dynamically typed array wrote
 through a null pointer

---
 lube/func.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 1d93fc5..5b8c56c 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -104,8 +104,12 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
         // This could be parallel!
         for (int i=0; i<iVar.size(); i++)
         {
+            var elem = iVar.at(i);
             var ref = oVar.at(i);
-            scalar(iVar.at(i), ref);
+            if (!ref)
+                // A dynamically typed array; alloc() only does the outermost
+                ref = alloc(elem);
+            scalar(elem, ref);
         }
         return;
     }
@@ -281,8 +285,12 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
+            var elem = iVar1.at(i);
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2.at(0), tmp);
+            if (!tmp)
+                // A dynamically typed array; alloc() only does the outermost
+                tmp = alloc(elem, iVar2.at(0));
+            scalar(elem, iVar2.at(0), tmp);
         }
         return;
     }
-- 
2.43.0


From 6d954202065d2f039b7efafd7cffb37b2ef882ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:43 +0000
Subject: [PATCH 57/91] fix: an operation over an empty array divided by zero

---
 lube/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 5b8c56c..48d2ff5 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -129,7 +129,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI > 0 ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -246,7 +246,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -309,7 +309,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -407,7 +407,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO > 0 ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From 4353f52f9d1ed7dde37033d64b743bbb1fff3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 58/91] fix: a compound operation with an element of its own
 array changed that element midway

---
 lube/func.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 48d2ff5..d552cd3 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -282,6 +282,10 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((dim2 == 1) && (iVar2.size() == 1))
     {
+        // Assigning dereferences; it could be an element of the output
+        var single;
+        single = iVar2.at(0);
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
@@ -289,8 +293,8 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
             var tmp = oVar.at(i);
             if (!tmp)
                 // A dynamically typed array; alloc() only does the outermost
-                tmp = alloc(elem, iVar2.at(0));
-            scalar(elem, iVar2.at(0), tmp);
+                tmp = alloc(elem, single);
+            scalar(elem, single, tmp);
         }
         return;
     }
-- 
2.43.0


From 2d93cbe9b04285ae455f8bb71f2452755e75bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 59/91] fix: range changed the array element given as its lower
 limit

---
 lube/var.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 1a9f8ec..0f9639c 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -927,11 +927,13 @@ var var::key(int iIndex) const
  */
 var libube::irange(var iLo, var iHi, var iStep)
 {
-    var r;
-    while (iLo < iHi)
+    // The argument can be a reference into an array
+    var lo, r;
+    lo = iLo;
+    while (lo < iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(lo);
+        lo += iStep;
     }
     return r;
 }
@@ -953,11 +955,13 @@ var libube::irange(var iHi)
  */
 var libube::range(var iLo, var iHi, var iStep)
 {
-    var r;
-    while (iLo <= iHi)
+    // The argument can be a reference into an array
+    var lo, r;
+    lo = iLo;
+    while (lo <= iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(lo);
+        lo += iStep;
     }
     return r;
 }
-- 
2.43.0


From 1d011c47e0ef8cf645b81041ab78f7429accb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:02 +0000
Subject: [PATCH 60/91] fix: an array of no elements built from a value held
 the value

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0f9639c..48f122b 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -469,6 +469,8 @@ var::var(int iSize, var iVar) : var()
     if (iVar.type() == TYPE_ARRAY)
         throw error("initialise ctor: cannot init from array");
     *this = iVar;
+    if (iSize == 0)
+        array();
     resize(iSize);
     for (int i=1; i<iSize; i++)
         at(i) = iVar;
-- 
2.43.0


From a1c946ecee54d390e1071374a6bd6a1d6d4bf769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 61/91] fix: a string was not converted to a complex double

---
 lube/var.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 48f122b..e39c3cb 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -712,10 +712,11 @@ cdouble castComplex<cdouble>(cdouble iData)
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
-    // Return immediately if no cast is required
+    // Return immediately if no cast is required.  An array is only what it is
+    // being cast to if its elements are.
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if ((v.type() == iVar.type()) && (!iVar.heap() || iVar.atype<T>()))
     {
         if (!iVar.is(oVar))
             oVar = iVar;
-- 
2.43.0


From 6841826cf9204102ffb242712c8be7ac900bfbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:03 +0000
Subject: [PATCH 62/91] fix: the sum of the magnitude of a complex number was
 written out of bounds

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index bf0a04b..7533bef 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -936,10 +936,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From 147876e0c4ef0ccb77f074ac0942fe8e24f5bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 63/91] fix: the dot product with an array of one element did
 not return

---
 lube/math.cpp | 34 ++++++++++++++++++++++++++++++++++
 lube/math.h   |  1 +
 2 files changed, 35 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7533bef..71f020c 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -757,6 +757,40 @@ bool Dot::conformant(var iVar1, var iVar2) const
 }
 
 
+void Dot::scalar(const var& iVar1, const var& iVar2, var& oVar) const
+{
+    switch(type(iVar1))
+    {
+    case TYPE_ARRAY:
+        // A single value broadcasts without this being checked
+        if (!conformant(iVar1, iVar2))
+            throw error("Dot::scalar: Shapes not compatible");
+        if ((iVar1.dim() == 1) && (iVar1.size() == 1))
+            // The output is a scalar rather than an array
+            scalar(iVar1.at(0), iVar2.at(0), oVar);
+        else
+            broadcast(iVar1, iVar2, oVar);
+        break;
+    case TYPE_FLOAT:
+        *oVar.ptr<float>() = iVar1.get<float>() * iVar2.cast<float>();
+        break;
+    case TYPE_DOUBLE:
+        *oVar.ptr<double>() = iVar1.get<double>() * iVar2.cast<double>();
+        break;
+    case TYPE_CFLOAT:
+        *oVar.ptr<cfloat>() =
+            std::conj(iVar1.get<cfloat>()) * iVar2.cast<cfloat>();
+        break;
+    case TYPE_CDOUBLE:
+        *oVar.ptr<cdouble>() =
+            std::conj(iVar1.get<cdouble>()) * iVar2.cast<cdouble>();
+        break;
+    default:
+        throw error("Dot::scalar: Unknown type");
+    }
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
diff --git a/lube/math.h b/lube/math.h
index 178c563..8e510f3 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -163,6 +163,7 @@ namespace libube
     protected:
         bool conformant(var iVar1, var iVar2) const;
         var alloc(var iVar1, var iVar2) const;
+        void scalar(const var& iVar1, const var& iVar2, var& oVar) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From ed0537087cfb4536a387d777214038980430fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 64/91] fix: the product of a stack of matrices with a matrix
 took the wrong dimensions

---
 lube/math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 71f020c..fd86ce5 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -848,7 +848,7 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
+        if (iVar1.shape(-1) != iVar2.shape(0))
         {
             std::cout << iVar1.shape() << iVar2.shape() << std::endl;
             throw error("Dot::vector: Shapes not compatible");
@@ -857,7 +857,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -867,7 +867,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From 38f18a93c2f2df93fed8414f7141dac6186d653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:21 +0000
Subject: [PATCH 65/91] fix: swapping arrays of more than one dimension ran
 past their ends

---
 lube/math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index fd86ce5..321afbf 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -309,6 +309,9 @@ void Set::vector(
 /** Don't allocate anything */
 var Swap::alloc(var iVar1, var iVar2) const
 {
+    // Swapping is between places; it only makes sense if they're the same
+    if (iVar1.shape() != iVar2.shape())
+        throw error("Swap::alloc: shapes must match");
     return iVar1;
 };
 
@@ -320,7 +323,7 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 07564f03882d5fdb376f4327f13f7c3a37005d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 66/91] fix: setting a copy of an array from another set the
 array itself

---
 lube/math.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 321afbf..98d11ba 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -253,51 +253,51 @@ void Set::vector(
     var& oVar, ind iOffsetO
 ) const
 {
-    assert(type(iVar1) == TYPE_ARRAY);
+    assert(type(oVar) == TYPE_ARRAY);
     int size = iVar2.size();
-    switch(iVar1.atype())
+    switch(oVar.atype())
     {
     case TYPE_CHAR:
         std::copy_n(
-            iVar2.ptr<char>(iOffset2), size, iVar1.ptr<char>(iOffset1)
+            iVar2.ptr<char>(iOffset2), size, oVar.ptr<char>(iOffsetO)
         );
         break;
     case TYPE_INT:
         std::copy_n(
-            iVar2.ptr<int>(iOffset2), size, iVar1.ptr<int>(iOffset1)
+            iVar2.ptr<int>(iOffset2), size, oVar.ptr<int>(iOffsetO)
         );
         break;
     case TYPE_LONG:
         std::copy_n(
-            iVar2.ptr<long>(iOffset2), size, iVar1.ptr<long>(iOffset1)
+            iVar2.ptr<long>(iOffset2), size, oVar.ptr<long>(iOffsetO)
         );
         break;
     case TYPE_FLOAT:
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
         blas::copy(
             size,
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
         blas::copy(
             size,
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 7384015b5714f09a2ef820b56e9d2cb898f83e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:04 +0000
Subject: [PATCH 67/91] fix: concatenating arrays of different dimension left
 elements with no value

---
 lube/math.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 98d11ba..63a734a 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1371,11 +1371,15 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        // One dimension less is a single column
+        int dimv = iVar[v].dim();
+        if ((dimv != dim) && (dimv != dim-1))
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
         // ...and sum the low dimensions
-        sum += iVar[v].shape(-1);
+        sum += (dimv == dim) ? iVar[v].shape(-1) : 1;
     }
 
     // Allocate a new shape with the summed low dimension
-- 
2.43.0


From 0ef308c6872fab38571746630c24d5a7604ba219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:56 +0000
Subject: [PATCH 68/91] fix: concatenating a number as a column made it an
 array

---
 lube/func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index d552cd3..45a961a 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -421,7 +421,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
             int step = cdim > 0 ? iVar[j].stride(cdim-1) : 0;
             // Don't take a view of a single value
             iv.push(
-                dim == cdim ? iVar[j][i] : iVar[j].subview(dim-cdim, step*i)
+                dim == cdim ? iVar[j].at(i) : iVar[j].subview(dim-cdim, step*i)
             );
         }
         var ov = (dimO == cdim) ? oVar[i] : oVar.subview(dimO-cdim, stepO*i);
-- 
2.43.0


From 23066e1e79c9cd5e09a81c9ac290201ea05e8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:13 +0000
Subject: [PATCH 69/91] fix: a complex element was set from the first of
 several complex values

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 63a734a..e9ef21f 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -238,7 +238,7 @@ void Set::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         break;
     case TYPE_CDOUBLE:
         // A cast would copy, and hence set, a cdouble that is a view
-        *oVar.ptr<cdouble>() = iVar2.atype<cdouble>() ?
+        *oVar.ptr<cdouble>() = iVar2.atype<cdouble>() && iVar2.size() == 1 ?
             iVar2.get<cdouble>() : iVar2.cast<cdouble>();
         break;
     default:
-- 
2.43.0


From 59d65050e9677346922f1126e4edd54e5005ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 70/91] fix: poly allocated a single precision output for
 double precision complex roots

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index e9ef21f..c60646d 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1279,7 +1279,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From f072d8a2591944a8a43f01f98727906c24103595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 71/91] fix: roots of a polynomial of degree one threw

---
 lube/math.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index c60646d..30d5269 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1189,7 +1189,8 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = var(size*size, iVar.at(0));
+    a = a.array().view({size, size});
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
-- 
2.43.0


From a56aa4ec267bd0cf558a4aab419abc712bc02ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 72/91] fix: a transform read beyond an input of another size

---
 lube/dft-mkl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index dcb3844..bf90397 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -21,6 +21,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -91,6 +92,12 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     }
     dftiCheck(r);
 
+    // The inverse of a real transform is from the complex size
+    mImpl->iSize = iSize;
+    if (iInverse && (mImpl->forwardType.atype() == TYPE_FLOAT ||
+                     mImpl->forwardType.atype() == TYPE_DOUBLE))
+        mImpl->iSize = iSize / 2 + 1;
+
     // Default is to overwrite the input
     r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);
     dftiCheck(r);
@@ -134,6 +141,11 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(-1) != mImpl->iSize)
+        throw error("DFTBase::scalar: wrong input size");
+    if (oVar.shape(-1) != mImpl->oSize ||
+        oVar.size() / mImpl->oSize != iVar.size() / mImpl->iSize)
+        throw error("DFTBase::scalar: wrong output size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From 139742fda06c928b1403ed09d5b7df5d98e4bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 73/91] fix: a transform that could not be constructed was
 leaked

---
 lube/dft-mkl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index bf90397..7dbeed7 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -24,6 +25,12 @@ struct libube::DFTImpl
     int iSize;
     int oSize;
     bool inverse;
+
+    ~DFTImpl()
+    {
+        if (handle)
+            DftiFreeDescriptor(&handle);
+    }
 };
 
 
@@ -47,7 +54,8 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -104,12 +112,13 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+
+    // Nothing threw, so the destructor will be called
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
-- 
2.43.0


From 61caf611532c96e0d687832b5addccc2f0183e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 74/91] fix: an ini value was cut at the second = or :

---
 lube/inifile.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..df82f83 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -57,15 +57,17 @@ var inifile::read(var iFile)
         }
         else
         {
-            // It's a 'key [=:] value' line
-            var kv = f.split("=");
-            if (kv.size() < 2)
-                kv = f.split(":");
-            if (kv.size() < 2)
+            // It's a 'key [=:] value' line; the value may contain either
+            ind split = f.index('=');
+            if (!split)
+                split = f.index(':');
+            if (!split)
                 throw error("inifile::read(): couldn't split");
-            kv[0].strip();
-            kv[1].strip();
-            oVar[section][kv[0]] = kv[1];
+            var key(split, f.str());
+            var value(f.size()-split-1, f.str()+split+1);
+            key.strip();
+            value.strip();
+            oVar[section][key] = value;
         }
     }
     return oVar;
-- 
2.43.0


From 9befcd9838f3ca50aed1b164f7339675b747a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:31 +0000
Subject: [PATCH 75/91] fix: parsing options again after an abandoned scan
 started within the old argument

---
 lube/config.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/config.cpp b/lube/config.cpp
index 8382146..c52b0c9 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -43,6 +43,10 @@ Option::Option(var iName) : Option()
  */
 Option::operator bool()
 {
+    // Start from the beginning; 0 also resets the place within an argument
+    if (mOpt == -1)
+        optind = 0;
+
     // Should be const, but .str() isn't, so something is wrong.
     mOpt = getopt(mArgc, mArgv, mOptString.str());
     return mOpt != -1;
-- 
2.43.0


From 6dda01864cc1b61e2a9e3ead97655fd7cb36ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 76/91] fix: the end of an XML document was not checked, and
 what expat had deferred not read

---
 lube/xmlfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..f35a997 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -181,7 +181,7 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    s = XML_Parse(mParser, f.str(), 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
-- 
2.43.0


From 3e96fcba8239fd4c1e7008cb5b781045a6ec1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 77/91] fix: line ends were lost within XML tags and
 attributes, and white space outside the root refused

---
 lube/xmlfile.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index f35a997..ea4426c 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, October 2013
  */
 
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -92,8 +93,11 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside the root element finds its way here
+    int white = 0;
+    while (white < iLen && strchr(" \t\r\n", iStr[white]))
+        white++;
+    if (white == iLen)
         return;
 
     var str(iLen, iStr);
@@ -177,6 +181,8 @@ var Expat::parse(const char* iFile)
     XML_Status s;
     while (f.getline(is))
     {
+        // The line end matters in tags and attributes
+        f.push('\n');
         s = XML_Parse(mParser, f.str(), f.size(), 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
@@ -233,6 +239,10 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Line ends in text are dropped, but not those written as references
+    if (iLen == 1 && *iStr == '\n' && XML_GetCurrentByteCount(mParser) <= 2)
+        return;
+
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From fb842631ed6c8bd890bfba4f29a83290469c2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 78/91] fix: all XML elements shared the string of their type

---
 lube/xmlfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index ea4426c..60ccf57 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -206,9 +206,11 @@ var Expat::element()
         elem[DATA] = nil;
         elem[NAME] = nil;
         elem[ATTR] = nil;
-        elem[TYPE] = "text";
+        elem[TYPE] = nil;
     }
-    return elem.copy();
+    var ret = elem.copy();
+    ret[TYPE] = "text";
+    return ret;
 }
 
 
-- 
2.43.0


From 6196ee9e19cc159012fadbb080c96c76cc0595db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 79/91] fix: line ends and tabs in written XML were not read
 back

---
 lube/xmlfile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 60ccf57..ca4447f 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -318,6 +318,15 @@ void XMLWriter::escape(std::ofstream& iOS, var iVar)
         case '"':
             iOS << "&quot;";
             break;
+        case '\n':
+            iOS << "&#10;";
+            break;
+        case '\r':
+            iOS << "&#13;";
+            break;
+        case '\t':
+            iOS << "&#9;";
+            break;
         default:
             iOS.put(str[i]);
             break;
-- 
2.43.0


From 6d08cc4e3b0c957256c0c9a8eb8b29db4d3981de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:36 +0000
Subject: [PATCH 80/91] fix: an audio file of one sample, or of none, was read
 as a single number

---
 lube/sndfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index a11036a..1e77b21 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -50,6 +50,7 @@ var sndfile::read(var iFile)
     mAttr["rate"] = sfInfo.samplerate;
     int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
+    data.array();
     data.resize(size);
     int nGot = sf_read_float(snd, data.ptr<float>(), size);
     if (nGot != size)
-- 
2.43.0


From 973a263a764e71029bbc99cd9612d6a50839debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:07 +0000
Subject: [PATCH 81/91] fix: audio samples that were not floats were written as
 if they were

---
 lube/sndfile.cpp | 56 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 1e77b21..b4b60c8 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, December 2013
  */
 
+#include <vector>
 #include <sndfile.h>
 #include <lube/module.h>
 
@@ -62,27 +63,62 @@ var sndfile::read(var iFile)
     return data;
 }
 
+/**
+ * Interleave the channels in the rows of an array
+ */
+template <class T>
+static std::vector<float> interleave(var iVar, int iChannels)
+{
+    T* ptr = iVar.ptr<T>();
+    int frames = iVar.size() / iChannels;
+    std::vector<float> data(iVar.size());
+    for (int c=0; c<iChannels; c++)
+        for (int f=0; f<frames; f++)
+            data[f*iChannels+c] = ptr[c*frames+f];
+    return data;
+}
+
 void sndfile::write(var iFile, var iVar)
 {
+    // Any type of real number can be written
+    int dim = iVar.dim();
+    if (dim > 2)
+        throw error("sndfile::write: more than two dimensions");
+    int channels = dim > 1 ? iVar.shape(0) : 1;
+    if (channels < 1)
+        throw error("sndfile::write: no channels");
+    std::vector<float> data;
+    if (iVar)
+        switch (iVar.atype())
+        {
+        case TYPE_INT:
+            data = interleave<int>(iVar, channels);
+            break;
+        case TYPE_LONG:
+            data = interleave<long>(iVar, channels);
+            break;
+        case TYPE_FLOAT:
+            data = interleave<float>(iVar, channels);
+            break;
+        case TYPE_DOUBLE:
+            data = interleave<double>(iVar, channels);
+            break;
+        default:
+            throw error("sndfile::write: not an array of real numbers");
+        }
+
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
     sfInfo.samplerate = mAttr["rate"].get<int>();
-    sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
+    sfInfo.channels = channels;
     SNDFILE* snd = sf_open(iFile.str(), SFM_WRITE, &sfInfo);
     if (!snd)
         throw error("sndfile::write: Failed to open file");
 
     // Write stuff
-    int n;
-    if (iVar.dim() > 1)
-    {
-        var tr = transpose(iVar);
-        n = (int)sf_write_float(snd, tr.ptr<float>(), tr.size());
-    }
-    else
-        n = (int)sf_write_float(snd, iVar.ptr<float>(), iVar.size());
+    int n = (int)sf_write_float(snd, data.data(), data.size());
     sf_close(snd);
-    if (iVar.size() != n)
+    if ((int)data.size() != n)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From ca0e5e6fdc4518c69bc0dd8b4f64e2d9b58decaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:07 +0000
Subject: [PATCH 82/91] fix: 16 bit audio samples changed when they were
 written back

---
 lube/sndfile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index b4b60c8..c57f088 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,8 @@
  *   Phil Garner, December 2013
  */
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 #include <sndfile.h>
 #include <lube/module.h>
@@ -116,8 +118,13 @@ void sndfile::write(var iFile, var iVar)
     if (!snd)
         throw error("sndfile::write: Failed to open file");
 
-    // Write stuff
-    int n = (int)sf_write_float(snd, data.data(), data.size());
+    // Write stuff.  libsndfile reads 16 bit samples as fractions of 32768, but
+    // would write them as fractions of 32767
+    std::vector<short> pcm(data.size());
+    for (size_t i=0; i<pcm.size(); i++)
+        pcm[i] = (short)std::lrint(
+            std::max(-32768.0f, std::min(32767.0f, data[i] * 32768.0f)));
+    int n = (int)sf_write_short(snd, pcm.data(), pcm.size());
     sf_close(snd);
     if ((int)data.size() != n)
         throw error("sndfile::write: Size fuckup");
-- 
2.43.0


From f3ddc0ca0cb5a5a8bfa36a26fbc2291e1e247506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:37 +0000
Subject: [PATCH 83/91] fix: an edge to a negative vertex wrote beyond the
 graph

---
 lube/graph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 16b1c1c..e2c5972 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -48,6 +48,10 @@ using namespace libube;
 
 void Graph::addEdge(ind iVertex1, ind iVertex2)
 {
+    // A negative index is no vertex
+    if (!iVertex1 || !iVertex2)
+        throw error("addEdge: no such vertex");
+
     // An edge is some non-trivial thing; it does ot cast to an integer type
     std::pair<edge, bool> ret;
     ret = add_edge(iVertex1, iVertex2, mGraph);
-- 
2.43.0


From 7f4ecace1bb90619e5cc71b61a906657fdd55a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:37 +0000
Subject: [PATCH 84/91] fix: a graph that could not be written to its file went
 unnoticed

---
 lube/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index e2c5972..15601d5 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -88,4 +88,7 @@ void Graph::writeGraphViz(var iFileName)
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
+    ofs.close();
+    if (!ofs)
+        throw error("writeGraphViz: failed to write file");
 }
-- 
2.43.0


From a3bd5b48b4b8d5be4f910eba4c109c03f04cf77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 85/91] fix: a GEDCOM reader starts afresh with each file

Individuals and families of a file read before were still there, also in the
value returned then, and after a file that was not read to its end no other
could be opened.
---
 lube/gedfile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..a96ebb4 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -168,6 +168,12 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
+    // Start afresh, whatever was read before
+    mVar = nil;
+    mIndividualMap = nil;
+    mFamilyMap = nil;
+    mInStream.close();
+    mInStream.clear();
     mInStream.open(iFileName.str());
     if (mInStream.fail())
         std::cout << "Open failed" << std::endl;
-- 
2.43.0


From c839b123e11d6b245258d02c49755d96e99604d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 86/91] fix: a GEDCOM file that cannot be opened or ends early
 is an error

What was left of the last line was taken for another one.
---
 lube/gedfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index a96ebb4..ca15cf7 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -159,8 +159,8 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
-        
+        throw error("GEDCOM::readLine(): Premature end of file");
+
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
     return level;
@@ -176,7 +176,7 @@ var GEDCOM::loadFile(var iFileName)
     mInStream.clear();
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
+        throw error("GEDCOM::loadFile(): Open failed");
     doFile(readLine());
     mInStream.close();
     return mVar;
-- 
2.43.0


From bf963921b9593495d067963398f29d2959b93be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:41 +0000
Subject: [PATCH 87/91] fix: GEDCOM records and marriages need no details

The line after one without any was taken for one of its details.
---
 lube/gedfile.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index ca15cf7..ead474c 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -209,19 +209,25 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doSubmitter(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
@@ -237,7 +243,9 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doHeader(level);
                 continue;
             case TRLR:
                 return;
@@ -397,7 +405,9 @@ int GEDCOM::doFamily(int iLevel, var iFam)
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
-- 
2.43.0


From 25b8c69b879b6a87ab0a9062a67b00ee26995438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:54 +0000
Subject: [PATCH 88/91] fix: plotting two matrices of one shape leaves them as
 they were

Assigned to a variable holding the first, the second was written into it.
---
 lube/gnuplot.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..e3962fa 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -68,7 +68,6 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
-    var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
@@ -82,7 +81,7 @@ void gnuplot::write(var iFile, var iVar)
     // Loop over the input var assuming it's an array of vars
     for (int i=0; i<iVar.size(); i++)
     {
-        line = iVar[i];
+        var line = iVar.at(i);
         switch (line.atype())
         {
         case TYPE_CHAR:
-- 
2.43.0


From fe9118a2e1152fc6c1d6cfa365a72d7b44578a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 89/91] fix: the name of the type of an undefined variable can
 be had

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index e39c3cb..2d364c8 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1104,7 +1104,7 @@ var var::typeStr() const
  */
 var var::atypeStr() const
 {
-    if (type() == TYPE_ARRAY)
+    if (type() == TYPE_ARRAY && heap())
     {
         varstream s;
         s << "array[" << libube::typeStr(heap()->type()) << "]";
-- 
2.43.0


From 8e0255186f51290d52e2cbb0256509b2139ddf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 90/91] fix: constructing an error does not leak the demangling
 buffers

---
 lube/var.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2d364c8..90ba1de 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1692,11 +1692,14 @@ void error::backTrace(std::ostream& iStream)
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
         char* plus = strchr(paren1+1, '+');
         *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        // The buffer remains valid if the demangling fails
+        char* name = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
-- 
2.43.0


From 271ad1cd9b13483ee6e37d809336935bb8691fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:25 +0000
Subject: [PATCH 91/91] fix: a view of the type of an element leaves the
 element as it is

---
 lube/var.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 90ba1de..262b737 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1508,7 +1508,8 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v;
+    v = iType ? iType : 0.0f; // A copy, not a reference to an element
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1524,7 +1525,8 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v;
+    v = iType ? iType : 0.0f; // A copy, not a reference to an element
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0

