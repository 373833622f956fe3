From 8be6d08acd7e5dbecae9f54461c3f7721cf56107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 01/47] fix: Parser: bound keyword matching by the input, not
 by the pattern's address

---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 19fd2fa89ed16cc5f78561f4cb2847beb00aa26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 02/47] fix: return *this from the StringMap and
 PointerIterator assignments

---
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From f8dbf1dae4dc2adf0187832fbcfaaa6aa599cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 03/47] fix: StringHashTable: keep the whole length of keys
 over 65535 bytes

---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..05c5a86 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 8663e18ae03c8b0ff9c89893f8f3cd12de11f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 04/47] fix: Vector: allow erasing up to and including the last
 element

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From ec80cc69b095980f0c9d68fc9c119ee35b8cb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 05/47] fix: Vector: max_size() counts elements, so that
 reserve() cannot overflow

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..7a71cc8 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -97,7 +97,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(value_type);
 }
 
 template<class ElementType> void
-- 
2.43.0


From 60dd10349502b5e0451bd307b81451ab1f1b4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 06/47] fix: Vector: construct and destroy its elements instead
 of assigning into raw memory

---
 include/eni/adt/Vector.h        |  4 +++
 include/eni/adt/bits/Vector.tcc | 63 ++++++++++++++++++++-------------
 2 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/include/eni/adt/Vector.h b/include/eni/adt/Vector.h
index 02c153b..37419b9 100644
--- a/include/eni/adt/Vector.h
+++ b/include/eni/adt/Vector.h
@@ -13,6 +13,10 @@
 #include <cstdlib>
 #include <limits>
 #include <initializer_list>
+#include <iterator>
+#include <memory>
+#include <new>
+#include <utility>
 #include <vector>
 
 namespace eni {
diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 7a71cc8..531bbc3 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -12,36 +12,34 @@ Vector<ElementType>::Vector()
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  : Vector() {
+  resize(pSize);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::fill_n(m_Data, m_DataSize, pValue);
+  : Vector() {
+  resize(pSize, pValue);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const std_vector& pVector)
-  : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pVector.begin(), pVector.end(), m_Data);
+  : Vector() {
+  reserve(pVector.size());
+  for (const_reference value : pVector)
+    push_back(value);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const Vector& pOther)
-  : m_DataSize(pOther.m_DataSize), m_AllocSize(pOther.m_DataSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pOther.begin(), pOther.end(), m_Data);
+  : Vector() {
+  assign(pOther.begin(), pOther.end());
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(initializer_list pIList)
-  : m_DataSize(pIList.size()), m_AllocSize(pIList.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pIList.begin(), pIList.end(), m_Data);
+  : Vector() {
+  assign(pIList);
 }
 
 template<class ElementType>
@@ -110,9 +108,12 @@ template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
   reserve(pSize);
-  if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
-  m_DataSize = pSize;
+  while (m_DataSize < pSize) {
+    ::new((void*)(m_Data + m_DataSize)) value_type(pValue);
+    ++m_DataSize;
+  }
+  while (m_DataSize > pSize)
+    m_Data[--m_DataSize].~value_type();
 }
 
 template<class ElementType> bool
@@ -141,13 +142,21 @@ Vector<ElementType>::reserve(size_type pSize)
     }
     if (targetSize > max_size())
       targetSize = max_size();
-    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);
+    pointer ptr = (ElementType*)std::malloc(sizeof(ElementType) * targetSize);
     if (nullptr == ptr) //< not enough memory
       throw BadAlloc<NoMemory>();
-    else {
-      m_Data = ptr;
-      m_AllocSize = pSize;
+    try {
+      std::uninitialized_copy(std::make_move_iterator(m_Data),
+                              std::make_move_iterator(m_Data + m_DataSize), ptr);
+    } catch (...) {
+      std::free(ptr);
+      throw;
     }
+    size_type dataSize = m_DataSize;
+    clear();
+    m_Data = ptr;
+    m_DataSize = dataSize;
+    m_AllocSize = targetSize;
   }
 }
 
@@ -229,13 +238,16 @@ template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  ::new((void*)(m_Data + m_DataSize)) value_type(pValue);
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
 Vector<ElementType>::pop_back()
 {
-  return m_Data[--m_DataSize];
+  value_type value(std::move(back()));
+  m_Data[--m_DataSize].~value_type();
+  return value;
 }
 
 template<class ElementType>
@@ -243,7 +255,8 @@ template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  ::new((void*)(m_Data + m_DataSize)) value_type(std::forward<Args>(pArgs)...);
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -361,6 +374,8 @@ template<class ElementType>
 void Vector<ElementType>::clear()
 {
   if (nullptr != m_Data) {
+    while (m_DataSize > 0)
+      m_Data[--m_DataSize].~value_type();
     std::free(m_Data);
     m_Data = nullptr;
   }
-- 
2.43.0


From ec549fa5922fe6dace1d9eab481c51e3460148d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 07/47] fix: Vector: accept values and ranges that belong to
 the vector itself

---
 include/eni/adt/bits/Vector.tcc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 531bbc3..e6c2734 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -107,9 +107,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  value_type value(pValue); //< pValue may be an element of this vector
   reserve(pSize);
   while (m_DataSize < pSize) {
-    ::new((void*)(m_Data + m_DataSize)) value_type(pValue);
+    ::new((void*)(m_Data + m_DataSize)) value_type(value);
     ++m_DataSize;
   }
   while (m_DataSize > pSize)
@@ -217,15 +218,19 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be an element of this vector
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
 Vector<ElementType>::assign(const_iterator pFirst, const_iterator pLast)
 {
-  resize(pLast - pFirst);
-  std::copy(pFirst, pLast, m_Data);
+  Vector other; //< the range may lie in this vector, or be owned by an element
+  other.reserve(pLast - pFirst);
+  for (; pFirst != pLast; ++pFirst)
+    other.push_back(*pFirst);
+  swap(other);
 }
 
 template<class ElementType> void
@@ -237,8 +242,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be an element of this vector
   reserve(size() + 1);
-  ::new((void*)(m_Data + m_DataSize)) value_type(pValue);
+  ::new((void*)(m_Data + m_DataSize)) value_type(std::move(value));
   ++m_DataSize;
 }
 
@@ -254,8 +260,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  value_type value(std::forward<Args>(pArgs)...);
   reserve(size() + 1);
-  ::new((void*)(m_Data + m_DataSize)) value_type(std::forward<Args>(pArgs)...);
+  ::new((void*)(m_Data + m_DataSize)) value_type(std::move(value));
   ++m_DataSize;
 }
 
@@ -303,11 +310,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  value_type value(pValue); //< pValue may be an element of this vector
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
@@ -316,12 +324,14 @@ Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_itera
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
-  size_type insertSize = pLast - pFirst;
+  Vector values; //< the range may lie in this vector
+  values.assign(pFirst, pLast);
+  size_type insertSize = values.size();
   resize(size() + insertSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - insertSize, end);
-  std::copy(pFirst, pLast, ptr);
+  std::copy(values.begin(), values.end(), ptr);
 }
 
 template<class ElementType> void
-- 
2.43.0


From bd35cb8a2fbd227011f8b1ace5fec3bc0ac8d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 08/47] fix: Vector: inserting too many elements throws instead
 of wrapping the size around

---
 include/eni/adt/bits/Vector.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index e6c2734..b86e696 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -310,6 +310,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size())
+    throw LengthError<InvalidVectorSize>();
   value_type value(pValue); //< pValue may be an element of this vector
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
-- 
2.43.0


From ff3df865f6949481e9192f7d26712d1905b3d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 09/47] fix: Value: own and release the integer, release the
 old content on assignment

---
 include/eni/json/Callbacks.h |  4 +---
 lib/json/Value.cpp           | 27 +++++++--------------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/include/eni/json/Callbacks.h b/include/eni/json/Callbacks.h
index f6b2d9d..80b57e6 100644
--- a/include/eni/json/Callbacks.h
+++ b/include/eni/json/Callbacks.h
@@ -34,10 +34,8 @@ public:
   }
 
   void on_number(const vector<char> &pStr) {
-    Value v;
     string s(pStr.cbegin(),pStr.cend());
-    eni::s256 i(s);
-    v.delegate(i);
+    Value v{eni::s256(s)};
     set_parent(v);
   }
 
diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..cbc9a83 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -10,6 +10,7 @@
 #include <diagnostic/Exception.h>
 #include <eni_types.h>
 #include <string>
+#include <utility>
 
 using namespace eni;
 using namespace json;
@@ -77,6 +78,9 @@ Value::Value(const Array& pArray)
 Value::~Value()
 {
   switch (this->type()) {
+    case INT:
+      delete m_Value.int_p;
+      break;
     case STRING:
       delete m_Value.string_p;
       break;
@@ -168,26 +172,9 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Notation::operator=(pCopy);
-  switch (this->type()) {
-    case INT:
-      m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);
-      break;
-    case BOOL:
-      m_Value.bool_p = pCopy.m_Value.bool_p;
-      break;
-    case STRING:
-      m_Value.string_p = new string(*pCopy.m_Value.string_p);
-      break;
-    case OBJECT:
-      m_Value.object_p = new Object(*pCopy.m_Value.object_p);
-      break;
-    case ARRAY:
-      m_Value.array_p = new Array(*pCopy.m_Value.array_p);
-      break;
-    case UNDEF:
-      break;
-  }
+  Value copy(pCopy); //< pCopy may be this value, or be owned by it
+  std::swap(m_Type, copy.m_Type);
+  std::swap(m_Value, copy.m_Value);
   return *this;
 }
 
-- 
2.43.0


From 47d3e4a0dad3dd1507c94190b8c627758d9076a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 10/47] fix: Value: looking up a child of a non-container gives
 undefined, not the integer 5

---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index cbc9a83..0376b98 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -15,7 +15,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue;
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From 1ff78ca5c13abbb47a1e45ebb5f3e6fe3d838281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 11/47] fix: Object: print keys as quoted and escaped JSON
 strings

---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From 4dcdd8ec51bc42e405c921da557f70373fc31587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 12/47] fix: HashTable: a copy of a table without buckets has
 no buckets either

---
 include/eni/adt/bits/HashBase.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..3bf6582 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,8 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit())
+    return;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 0aa73ff69fc35621a929ab94af524c5b0641285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 13/47] fix: HashTable: assignment releases the old entries and
 survives self-assignment

---
 include/eni/adt/bits/HashTable.tcc | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..d4ba393 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,21 +56,7 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
-
-  internal::TableImpl<K, V, H>::operator=(pCopy);
-
-  // for all entries in pCopy, allocate an entry.
-  for (unsigned int i=0; i < numOfBuckets(); ++i) {
-    if (EmptyBucket() != super::m_Buckets[i].entry &&
-        Tombstone() != super::m_Buckets[i].entry ) {
-      // copy entry
-      const key_type& key = pCopy.m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.super::m_Buckets[i].entry->value());
-    }
-  }
-  return *this;
+  return *this = HashTable(pCopy);
 }
 
 // Move assignment
@@ -79,6 +65,9 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+  HashTable old(std::move(*this)); //< pOther may be owned by an entry of this table
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
-- 
2.43.0


From c7ae32d894b0af96250a2684111eb622a1830445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 14/47] fix: HashTable: starting a chain at an absent key must
 not dereference empty buckets

---
 include/eni/adt/bits/HashIterator.tcc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..44e8b75 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -18,11 +18,16 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
     }
     else if (m_HashValue == bucket.hash) {
-- 
2.43.0


From 8892ef0c1b2811724e318066362f7827e4aab142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 15/47] fix: HashTable: count() counts the key, not all the
 entries with its hash

---
 include/eni/adt/bits/HashTable.tcc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index d4ba393..11baa50 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -177,11 +177,7 @@ template<typename K, typename V, typename H,
 typename HashTable<K, V, H, E, A>::size_type
 HashTable<K, V, H, E, A>::count(const key_type& pKey) const
 {
-  const_chain_iterator bucket, bEnd = end(pKey);
-  size_type count = 0;
-  for (bucket = begin(pKey); bucket != bEnd; ++bucket)
-    ++count;
-  return count;
+  return (-1 == super::findKey(pKey)) ? 0 : 1;
 }
 
 template<typename K, typename V, typename H,
-- 
2.43.0


From c20845e1a5dfcd7ccde8def70198116dc7b7000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 16/47] fix: HashIterator: make operator* usable

---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From dd9c7a33ef935c76be0599aa36a083d08eb426e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 17/47] fix: HashTable: rehash(n) keeps room for the entries
 and one empty bucket

---
 include/eni/adt/bits/HashTable.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 11baa50..63f6031 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -198,6 +198,8 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  if (pCount <= super::m_NumOfEntries) //< keep at least one bucket empty
+    pCount = super::m_NumOfEntries + 1;
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 1f7b81cf0e2b7cb32489dacabfef384ad1b3d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 18/47] fix: StringHasher<ES>: saturate the number of dots,
 which has only 4 bits

---
 include/eni/adt/StringHasher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..8562d72 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -8,6 +8,7 @@
 #define ENI_ADT_STRING_HASHER
 
 #include <diagnostic/Exception.h>
+#include <algorithm>
 #include <string>
 #include <cctype>
 #include <cstring>
@@ -307,7 +308,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
     }
-    result |= (dot << 28);
+    result |= (std::min(dot, 15u) << 28); //< only 4 bits to count the dots
     return result;
   }
 
-- 
2.43.0


From d97def5b7e5d7f03a0ee1e2aa4e22d908afa031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 19/47] fix: EniBase: arguments that are not an array are
 invalid, not undefined behaviour

---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From fd653949daa294e590a6a33d5e5f0b38694c457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 20/47] fix: EniBase: starting an operation again gives its
 result, not all results so far

---
 include/eni/eni.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6c1c420..b267eae 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -57,6 +57,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear();
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
-- 
2.43.0


From 54fc79ea10f07e8a75e82ad5db8e447975e9308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 21/47] fix: reject missing arguments and arguments of the
 wrong type in the ENI operations

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..5c0aa13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -132,6 +132,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -161,6 +163,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..404c91d 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From f5857d97c3a4b6d980ca34d4545032f08253a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 22/47] fix: hex2str: decode upper-case digits and reject
 anything that is not hexadecimal

---
 tools/eni_crypto/eni_crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5c0aa13..541e2c3 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h < 'A') ? (h - '0') : ((h | 0x20) - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -38,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (pHex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From 689dce7acb8d169a5339482f008f25c09799dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 23/47] fix: rsa: free the BIO, and never prompt for the
 passphrase of an encrypted key

---
 tools/eni_crypto/eni_crypto.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 541e2c3..b535629 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -54,7 +54,8 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, const_cast<char*>(""));
+  BIO_free(bio);
   return key;
 }
 
@@ -63,7 +64,8 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, const_cast<char*>(""));
+  BIO_free(bio);
   return key;
 }
 
-- 
2.43.0


From 7ed9fa864254d677f66632e0ac8d0c79a1650092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 24/47] fix: rsa: keep results inside their buffers, release
 these, refuse messages longer than the key

---
 tools/eni_crypto/eni_crypto.cpp | 35 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index b535629..f6f169f 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -6,6 +6,7 @@
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -78,58 +79,64 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  if (pMsg.length() > size)
+    return false;
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_public_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_public_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  while (len > 0 && '\0' == decrypted[len - 1]) //< padding
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
-  unsigned char* encrypted = new unsigned char[size];
+  if (pMsg.length() > size)
+    return false;
+  std::vector<unsigned char> encrypted(size);
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
   int len = ::RSA_private_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_private_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  while (len > 0 && '\0' == decrypted[len - 1]) //< padding
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted.data()), len);
   return true;
 }
 
-- 
2.43.0


From 3d89b3facf3834f277566d50fa298986581e2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 25/47] fix: Parser: reject integers of more than 256 bits
 instead of wrapping them

---
 include/eni/json/Parser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..2dc5fba 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -94,6 +94,11 @@ public:
       }
       return false;
     }
+    // an integer has at most 78 digits and 256 bits, besides its sign
+    if (str.size() > 79 ||
+        abs(boost::multiprecision::cpp_int(string(str.begin(), str.end()))) >
+          std::numeric_limits<eni::s256>::max())
+      parse_error("integer out of range");
     m_CBacks.on_number(str);
     return true;
   }
-- 
2.43.0


From 0e63afb4baca071a5a4bbd4fe082f74fb99bd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 26/47] fix: Parser: reject nesting that would overflow the
 stack

---
 include/eni/json/Parser.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 2dc5fba..10f2fa0 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -41,7 +41,7 @@ using std::vector;
 
 class Parser {
 public:
-  Parser(const std::string &pStr) {
+  Parser(const std::string &pStr) : m_Depth(0) {
     m_It = m_Start = &pStr[0];
     m_End = &pStr[0] + pStr.length();
     try {
@@ -58,8 +58,11 @@ public:
   }
 
   void parse_value() {
-    if (parse_object()) return;
-    if (parse_array()) return;
+    // parsing, copying and destroying recurse: keep them within the stack
+    if (++m_Depth > 1024) parse_error("nested too deeply");
+    bool container = parse_object() || parse_array();
+    --m_Depth;
+    if (container) return;
     if (parse_string(false)) return;
     if (parse_boolean()) return;
     if (parse_number()) return;
@@ -307,6 +310,7 @@ private:
   const char *m_It;// scanner iterator, this points to ASCII char instead of UTF-8 char
 
   Callbacks m_CBacks;
+  unsigned int m_Depth; // number of the arrays and objects being parsed
   bool m_ParseSucceed;
 };
 
-- 
2.43.0


From a466666c1e9053eca009a9f1ad644f8839e2f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 27/47] fix: eni_gas: release the gas with free(), as ENI_GAS
 allocates it with malloc()

---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 98bab1ecf7a0941f531de13c117ce453bf1393a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 28/47] fix: hash tables: report failing allocations as
 NoMemory instead of using null pointers

---
 include/eni/adt/HashBase.h            |  1 +
 include/eni/adt/StringHashTable.h     |  5 ++++-
 include/eni/adt/bits/HashBase.tcc     | 15 +++++++++++----
 include/eni/adt/bits/HashTable.tcc    |  8 ++++----
 include/eni/support/MallocAllocator.h |  6 +++++-
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index 3cf4b09..fb1f45e 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -7,6 +7,7 @@
 #ifndef ENI_ADT_HASHBASE
 #define ENI_ADT_HASHBASE
 
+#include <diagnostic/Exception.h>
 #include <cstdlib>
 #include <cstring>
 
diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 05c5a86..54df319 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -89,8 +89,11 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements, const std::string* pKey) {
-    return static_cast<pointer>(
+    pointer object = static_cast<pointer>(
       std::malloc(sizeof(internal::Entry<std::string, ValueType>) + pKey->size() + 1));
+    if (nullptr == object)
+      throw BadAlloc<NoMemory>();
+    return object;
   }
 
   void deallocate(pointer pObject, size_type pN = 0)
diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 3bf6582..b6bbad1 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -66,6 +66,8 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
   if (!pCopy.isInit())
     return;
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
+  if (nullptr == m_Buckets)
+    throw eni::BadAlloc<NoMemory>();
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
   // Because TableImpl doesn't handle with entries, here we doesn't copy entries
@@ -128,15 +130,18 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(TableImpl&& pOther)
 template<typename K, typename V, typename H, template<class, class> class E>
 bool TableImpl<K, V, H, E>::init(unsigned int pInitSize)
 {
-  m_NumOfBuckets = pInitSize ? compute_bucket_size(pInitSize)
-                             : (unsigned int) NumOfInitBuckets;
+  unsigned int size = pInitSize ? compute_bucket_size(pInitSize)
+                                : (unsigned int) NumOfInitBuckets;
 
   m_NumOfEntries = 0;
   m_NumOfTombstones = 0;
 
   /** calloc also set bucket.Item = Bucket::getEmptyStone() **/
-  m_Buckets = (Bucket*)calloc(m_NumOfBuckets, sizeof(Bucket));
-  return (nullptr != m_Buckets);
+  m_Buckets = (Bucket*)calloc(size, sizeof(Bucket));
+  if (nullptr == m_Buckets)
+    throw eni::BadAlloc<NoMemory>();
+  m_NumOfBuckets = size;
+  return true;
 }
 
 /// clear - clear the hash table.
@@ -251,6 +256,8 @@ template<typename K, typename V, typename H, template<class, class> class E>
 void TableImpl<K, V, H, E>::doRehash(unsigned int pNewSize)
 {
   Bucket* new_table = (Bucket*)calloc(pNewSize, sizeof(Bucket));
+  if (nullptr == new_table)
+    throw eni::BadAlloc<NoMemory>();
 
   // Rehash all the items into their new buckets.  Luckily :) we already have
   // the hash values available, so we don't have to recall hash function again.
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 63f6031..9fc9c71 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -111,16 +111,16 @@ HashTable<K, V, H, E, A>::insert(const key_type& pKey, bool& pExist)
     return entry;
   }
 
-  // find a tombstone
-  if (Tombstone() == entry)
-    --super::m_NumOfTombstones;
-
   // construct an entry
   entry = m_EntryAlloc.allocate(1, &pKey);
 
   // constructor with key type is necessary.
   new (entry) entry_type(pKey);
 
+  // find a tombstone
+  if (Tombstone() == bucket.entry)
+    --super::m_NumOfTombstones;
+
   // set up the bucket
   bucket.entry = entry;
 
diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index 1a7b62a..2bd207f 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -7,6 +7,7 @@
 #ifndef ENI_SUPPORT_MALLOC_ALLOCATOR
 #define ENI_SUPPORT_MALLOC_ALLOCATOR
 
+#include <diagnostic/Exception.h>
 #include <cstdlib>
 
 namespace eni {
@@ -50,7 +51,10 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements = 1, const void* pU = NULL) {
-    return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
+    pointer object = static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
+    if (nullptr == object)
+      throw BadAlloc<NoMemory>();
+    return object;
   }
 
   void deallocate(pointer pObject, size_type pN = 0)
-- 
2.43.0


From 8a6c8d6f77221975af5a70fedab197e3cd9b49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 29/47] fix: assign a container from one that an element of it
 owns

Array and Object assignment read the type of the source after their elements,
which may own the source, have been destroyed.
---
 lib/json/Array.cpp  | 2 +-
 lib/json/Object.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/Array.cpp b/lib/json/Array.cpp
index df0de6b..0737d1f 100644
--- a/lib/json/Array.cpp
+++ b/lib/json/Array.cpp
@@ -19,8 +19,8 @@ Array::Array(const Array& pArray)
 
 Array& Array::operator=(const Array& pArray)
 {
+  Notation::operator=(pArray); //< pArray may be owned by an element of this array
   eni::Vector<Value>::operator=(pArray);
-  Notation::operator=(pArray);
   return *this;
 }
 
diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 0245afe..dcb437b 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -18,8 +18,8 @@ Object::Object(const Object& pCopy)
 
 Object& Object::operator=(const Object& pCopy)
 {
+  Notation::operator=(pCopy); //< pCopy may be owned by an element of this object
   eni::StringMap<Value>::operator=(pCopy);
-  Notation::operator=(pCopy);
   return *this;
 }
 
-- 
2.43.0


From 0d578e0a521bb9d65a1852eebacac468a472db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 30/47] fix: Value: reading an absent key of an object gives
 undefined, without inserting it

---
 lib/json/Value.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 0376b98..d778fcb 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -185,7 +185,10 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    const Object& object = *m_Value.object_p; //< reading must not insert the key
+    Object::const_iterator it = object.find(key);
+    if (it != object.end())
+      return it->value();
   }
   return g_NullValue;
 }
-- 
2.43.0


From 4940f9b4ee04a7cb1279b201ae5dd598c1ab87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 31/47] fix: HashTable: an insertion or a copy that throws
 leaves nothing behind

---
 include/eni/adt/bits/HashTable.tcc | 63 +++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 9fc9c71..7333f86 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -21,15 +21,33 @@ HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
     return;
 
   // for all entries in pCopy, allocate an entry.
-  for (unsigned int i=0; i < numOfBuckets(); ++i) {
-    if (EmptyBucket() != super::m_Buckets[i].entry &&
-        Tombstone() != super::m_Buckets[i].entry ) {
-      // copy entry
-      const key_type& key = pCopy.super::m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.m_Buckets[i].entry->value());
+  entry_type* entry = nullptr;
+  try {
+    for (unsigned int i=0; i < numOfBuckets(); ++i) {
+      if (EmptyBucket() != super::m_Buckets[i].entry &&
+          Tombstone() != super::m_Buckets[i].entry ) {
+        // copy entry
+        const key_type& key = pCopy.super::m_Buckets[i].entry->key();
+        entry = m_EntryAlloc.allocate(1, &key);
+        new (entry) entry_type(key);
+        super::m_Buckets[i].entry = entry;
+        entry = nullptr;
+        super::m_Buckets[i].entry->setValue(pCopy.m_Buckets[i].entry->value());
+      }
     }
+  } catch (...) {
+    // release the copies; the buckets that follow still show entries of pCopy
+    if (nullptr != entry)
+      m_EntryAlloc.deallocate(entry);
+    for (unsigned int j=0; j < numOfBuckets(); ++j) {
+      entry = super::m_Buckets[j].entry;
+      if (EmptyBucket() != entry && Tombstone() != entry &&
+          pCopy.m_Buckets[j].entry != entry) {
+        entry->~entry_type();
+        m_EntryAlloc.deallocate(entry);
+      }
+    }
+    throw;
   }
 }
 
@@ -115,17 +133,32 @@ HashTable<K, V, H, E, A>::insert(const key_type& pKey, bool& pExist)
   entry = m_EntryAlloc.allocate(1, &pKey);
 
   // constructor with key type is necessary.
-  new (entry) entry_type(pKey);
+  try {
+    new (entry) entry_type(pKey);
+  } catch (...) {
+    m_EntryAlloc.deallocate(entry);
+    throw;
+  }
 
-  // find a tombstone
-  if (Tombstone() == bucket.entry)
+  // set up the bucket, which may be a tombstone
+  entry_type* unused = bucket.entry;
+  if (Tombstone() == unused)
     --super::m_NumOfTombstones;
-
-  // set up the bucket
   bucket.entry = entry;
-
   ++super::m_NumOfEntries;
-  super::mayRehash();
+
+  try {
+    super::mayRehash();
+  } catch (...) {
+    // without the entry there are as many empty buckets as before
+    --super::m_NumOfEntries;
+    bucket.entry = unused;
+    if (Tombstone() == unused)
+      ++super::m_NumOfTombstones;
+    entry->~entry_type();
+    m_EntryAlloc.deallocate(entry);
+    throw;
+  }
   pExist = false;
   return entry;
 }
-- 
2.43.0


From 64323b49161c43803596c67761cbf14a5f79ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 32/47] fix: Vector: copying a vector of vectors copies each
 element once, not once more per level

---
 include/eni/adt/bits/Vector.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index b86e696..086602f 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -228,8 +228,10 @@ Vector<ElementType>::assign(const_iterator pFirst, const_iterator pLast)
 {
   Vector other; //< the range may lie in this vector, or be owned by an element
   other.reserve(pLast - pFirst);
-  for (; pFirst != pLast; ++pFirst)
-    other.push_back(*pFirst);
+  for (; pFirst != pLast; ++pFirst) {
+    ::new((void*)(other.m_Data + other.m_DataSize)) value_type(*pFirst);
+    ++other.m_DataSize;
+  }
   swap(other);
 }
 
-- 
2.43.0


From f5cc117181b92cf5a210f87df2930e2181c80c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 33/47] fix: Parser: one exception type, so that a parse error
 in one file is caught by code of another

---
 include/eni/json/Parser.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 10f2fa0..cea7809 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -30,11 +30,10 @@
 #include <string>
 #include <vector>
 
-namespace {
+namespace json {
+// one type for all translation units: inline functions of one may be used in another
 class ParserError{};
-}
 
-namespace json {
 // the JSON parser for only JSON text in memory
 // read/write files is not supported yet
 using std::vector;
-- 
2.43.0


From b9df9587a51ed1a344b575bcb992b3938d72905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 34/47] fix: EniBase: reject text that goes on after the
 arguments

---
 include/eni/json/Parser.h | 9 +++++++++
 lib/eni.cpp               | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index cea7809..4d38a96 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -56,6 +56,15 @@ public:
     return m_ParseSucceed;
   }
 
+  /// parse_end - check that nothing but white space follows the value
+  bool parse_end() {
+    skip_ws();
+    if (m_It == m_End)
+      return true;
+    std::cerr << "unexpected text after the value";
+    return false;
+  }
+
   void parse_value() {
     // parsing, copying and destroying recurse: keep them within the stack
     if (++m_Depth > 1024) parse_error("nested too deeply");
diff --git a/lib/eni.cpp b/lib/eni.cpp
index cda03d7..c442cc9 100644
--- a/lib/eni.cpp
+++ b/lib/eni.cpp
@@ -15,7 +15,7 @@ using namespace eni;
 EniBase::EniBase(const std::string& pArgStr)
   : m_Parsed(false), m_ParseSuccess(false), m_Args(), m_RetVals() {
   json::Parser parser(pArgStr);
-  if (!parser) exit(87);
+  if (!parser || !parser.parse_end()) exit(87);
   m_Args = parser.getRoot();
   m_RetVals.delegate(*(new json::Array()));
 }
-- 
2.43.0


From 6bfc865f30a0ff6120c3dc4732159de0e415cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 35/47] fix: to_string: write 64-bit integers without the
 global locale's digit grouping

---
 lib/eni_types.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/eni_types.cpp b/lib/eni_types.cpp
index 7ad1006..5648f7d 100644
--- a/lib/eni_types.cpp
+++ b/lib/eni_types.cpp
@@ -16,13 +16,20 @@ std::string to_string(T pValue)
 }
 
 // explicit instantiation
-template std::string to_string(eni::u64);
 template std::string to_string(eni::u128);
 template std::string to_string(eni::u160);
 template std::string to_string(eni::u256);
 template std::string to_string(eni::s256);
 
 // full specialization
+template<>
+std::string to_string(eni::u64 pValue)
+{
+  // Boost writes integers of this size through a stream of the global locale,
+  // which may group the digits.
+  return std::to_string(static_cast<unsigned long long>(pValue));
+}
+
 template<>
 std::string to_string(eni::Bool pValue)
 {
-- 
2.43.0


From 2689e903292a1347ae19bc3953d40decf7dc2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 36/47] fix: StringHasher<ES>: classify characters alike in
 every locale

With a locale of more letters, bytes from 0x80 on were taken for letters and
shifted by negative or excessive distances.
---
 include/eni/adt/StringHasher.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 8562d72..41d4c31 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -288,7 +288,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
 
-      if (isdigit(cur_char)) {
+      if (('0' <= cur_char) && (cur_char <= '9')) { //< in every locale
         result |= (1 << 27);
         continue;
       }
@@ -298,12 +298,12 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
 
-      if (isupper(cur_char)) {
+      if (('A' <= cur_char) && (cur_char <= 'Z')) {
         result |= (1 << (cur_char - 'A'));
         continue;
       }
 
-      if (islower(cur_char)) {
+      if (('a' <= cur_char) && (cur_char <= 'z')) {
         result |= (1 << (cur_char - 'a'));
         continue;
       }
-- 
2.43.0


From 23bd08b1a11e023a0d4a8973d6b44a52a7ea8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 37/47] fix: str2hex, scrypt: write the digits without the
 global locale's grouping

---
 tools/eni_crypto/eni_crypto.cpp | 1 +
 tools/eni_scrypt/eni_scrypt.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index f6f169f..19c24c6 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -29,6 +29,7 @@ static inline unsigned char hex2digit(char h1, char h0)
 bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 {
   std::ostringstream oss;
+  oss.imbue(std::locale::classic()); //< the global locale may group digits
   std::string::const_iterator ic, end = pStr.end();
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 404c91d..e640fcc 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -54,6 +54,7 @@ bool Scrypt::run(json::Array& pRetVal)
 
   // hex output hash
   std::ostringstream oss;
+  oss.imbue(std::locale::classic()); //< the global locale may group digits
   for (int i = 0; i < 32; i++) {
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
-- 
2.43.0


From 18fa47bd51fae378ebc0a2ccad649e331671f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 38/47] fix: ENI_GAS, ENI_RUN: release the operation when it
 throws

---
 include/eni/eni.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index b267eae..254826d 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -11,25 +11,23 @@
 #include <json/Value.h>
 #include <cstdint>
 #include <cstring>
+#include <memory>
 #include <string>
 #include <sstream>
 
 #define ENI_GAS(OP, CLZ) \
   extern "C" uint64_t* OP ## _gas(char* pArgStr) {              \
-    eni::EniBase* functor = new CLZ(pArgStr);                   \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
     uint64_t gas = functor->getGas();                           \
     uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \
     *ptrGas = gas;                                              \
-    delete functor;                                             \
     return ptrGas;                                              \
   }
 
 #define ENI_RUN(OP, CLZ) \
   extern "C" char* OP ## _run(char* pArgStr) {  \
-    eni::EniBase* functor = new CLZ(pArgStr);   \
-    char* ret = functor->start();               \
-    delete functor;                             \
-    return ret;                                 \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
+    return functor->start();                    \
   }
 
 #define ENI_C_INTERFACE(OP, CLZ) \
-- 
2.43.0


From 81b9a83e601f578f20b6ea4863cd45c3e4d209bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 39/47] fix: ENI_GAS: return null when there is no memory for
 the gas

---
 include/eni/eni.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 254826d..ad3e277 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -20,7 +20,8 @@
     std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
     uint64_t gas = functor->getGas();                           \
     uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \
-    *ptrGas = gas;                                              \
+    if (nullptr != ptrGas)                                      \
+      *ptrGas = gas;                                            \
     return ptrGas;                                              \
   }
 
-- 
2.43.0


From db7cf635e05300e54189ac3a6e604d78ec35129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 40/47] fix: start, str2hex, scrypt: do not return text cut off
 for want of memory

---
 include/eni/eni.h               | 2 ++
 tools/eni_crypto/eni_crypto.cpp | 2 ++
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index ad3e277..bcb5677 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -62,6 +62,8 @@ public:
 
     std::ostringstream os;
     m_RetVals.print(os);
+    if (!os) //< out of memory: the text is incomplete
+      return nullptr;
     return ::strdup(os.str().c_str());
   }
 
diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 19c24c6..e9db5e5 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -34,6 +34,8 @@ bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
         << (int)(unsigned char)(*ic);
+  if (!oss) //< out of memory: the text is incomplete
+    return false;
   pHex = oss.str();
   return true;
 }
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index e640fcc..8707d6c 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -59,6 +59,8 @@ bool Scrypt::run(json::Array& pRetVal)
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
 
+  if (!oss) //< out of memory: the text is incomplete
+    return false;
   pRetVal.emplace_back(oss.str());
   return true;
 }
-- 
2.43.0


From 5228c7727ce07e53369a6310b67258b9a31c85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 41/47] fix: MallocAllocator: refuse requests whose size in
 bytes overflows

---
 include/eni/support/MallocAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index 2bd207f..8517d44 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -51,6 +51,8 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements = 1, const void* pU = NULL) {
+    if (pNumOfElements > max_size()) //< more bytes than can be counted
+      throw BadAlloc<NoMemory>();
     pointer object = static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
     if (nullptr == object)
       throw BadAlloc<NoMemory>();
-- 
2.43.0


From 7216104cbfb438704e3a685eed4b12ef871a6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 42/47] fix: eni_run, eni_gas: fail when the output cannot be
 written

---
 tools/eni_cli/eni_gas.cpp | 2 ++
 tools/eni_cli/eni_run.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 403ac76..0ce3bfc 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -36,5 +36,7 @@ int main(int argc, char* argv[])
 
   std::cout << *gas << std::endl;
   ::free(gas);
+  if (!std::cout) //< the output could not be written
+    return ExitRunError;
   return ExitSuccess;
 }
diff --git a/tools/eni_cli/eni_run.cpp b/tools/eni_cli/eni_run.cpp
index c26ee90..9fe3696 100644
--- a/tools/eni_cli/eni_run.cpp
+++ b/tools/eni_cli/eni_run.cpp
@@ -36,5 +36,7 @@ int main(int argc, char* argv[])
 
   std::cout << str << std::endl;
   ::free(str);
+  if (!std::cout) //< the output could not be written
+    return ExitRunError;
   return ExitSuccess;
 }
-- 
2.43.0


From caa3d0c79751e29b72c3630d027d2925667a2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 43/47] fix: HashTable: construct and assign the base with the
 table's own entry type

---
 include/eni/adt/bits/HashTable.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7333f86..189b4df 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -9,14 +9,14 @@
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(size_type pSize)
-  : internal::TableImpl<K, V, H>(pSize) {
+  : super(pSize) {
 }
 
 // copy constructor
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
-  : internal::TableImpl<K, V, H>(pCopy) {
+  : super(pCopy) {
   if (empty())
     return;
 
@@ -55,7 +55,7 @@ HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 HashTable<K, V, H, E, A>::HashTable(HashTable&& pOther)
-  : internal::TableImpl<K, V, H>(std::move(pOther)) {
+  : super(std::move(pOther)) {
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
 }
@@ -86,7 +86,7 @@ HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
   if (this == &pOther)
     return *this;
   HashTable old(std::move(*this)); //< pOther may be owned by an entry of this table
-  internal::TableImpl<K, V, H>::operator=(std::move(pOther));
+  super::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
   return *this;
-- 
2.43.0


From 4ccee50f2f73d7594eae3948b796540c656a0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 44/47] fix: StringHasher: hash strings of 4 GiB and more

---
 include/eni/adt/StringHasher.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 41d4c31..c35023c 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -57,7 +57,7 @@ struct StringHasher<RS> : public std::unary_function<const std::string&, uint32_
     uint32_t a = 63689;
     uint32_t hash_val = 0;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(size_t i = 0; i < pKey.size(); ++i) {
       hash_val = hash_val * a + pKey[i];
       a = a * b;
     }
@@ -75,7 +75,7 @@ struct StringHasher<JS> : public std::unary_function<const std::string&, uint32_
   {
     uint32_t hash_val = 1315423911;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(size_t i = 0; i < pKey.size(); ++i) {
        hash_val ^= ((hash_val << 5) + pKey[i] + (hash_val >> 2));
     } 
     return hash_val;
@@ -97,7 +97,7 @@ struct StringHasher<PJW> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     uint32_t test = 0;
 
-    for(unsigned int i = 0; i < pKey.size(); ++i) {
+    for(size_t i = 0; i < pKey.size(); ++i) {
       hash_val = (hash_val << OneEighth) + pKey[i];
 
       if((test = hash_val & HighBits) != 0) {
@@ -119,7 +119,7 @@ struct StringHasher<ELF> : public std::unary_function<const std::string&, uint32
     uint32_t hash_val = 0;
     uint32_t x = 0;
 
-    for (unsigned int i = 0; i < pKey.size(); ++i) {
+    for (size_t i = 0; i < pKey.size(); ++i) {
       hash_val = (hash_val << 4) + pKey[i];
       if((x = hash_val & 0xF0000000L) != 0)
         hash_val ^= (x >> 24); 
@@ -140,7 +140,7 @@ struct StringHasher<BKDR> : public std::unary_function<const std::string&, uint3
     const uint32_t seed = 131;
     uint32_t hash_val = 0;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(size_t i = 0; i < pKey.size(); ++i)
       hash_val = (hash_val * seed) + pKey[i];
     return hash_val;
   }
@@ -158,7 +158,7 @@ struct StringHasher<SDBM> : public std::unary_function<const std::string&, uint3
   {
     uint32_t hash_val = 0;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(size_t i = 0; i < pKey.size(); ++i)
       hash_val = pKey[i] + (hash_val << 6) + (hash_val << 16) - hash_val;
     return hash_val;
   }
@@ -175,7 +175,7 @@ struct StringHasher<DJB> : public std::unary_function<const std::string&, uint32
   {
     uint32_t hash_val = 5381;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(size_t i = 0; i < pKey.size(); ++i)
       hash_val = ((hash_val << 5) + hash_val) + pKey[i];
 
     return hash_val;
@@ -193,7 +193,7 @@ struct StringHasher<DEK> : public std::unary_function<const std::string&, uint32
   {
     uint32_t hash_val = pKey.size();
 
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(size_t i = 0; i < pKey.size(); ++i)
       hash_val = ((hash_val << 5) ^ (hash_val >> 27)) ^ pKey[i];
 
     return hash_val;
@@ -210,7 +210,7 @@ struct StringHasher<BP> : public std::unary_function<const std::string&, uint32_
   uint32_t operator()(const std::string& pKey) const
   {
     uint32_t hash_val = 0;
-    for(uint32_t i = 0; i < pKey.size(); ++i)
+    for(size_t i = 0; i < pKey.size(); ++i)
       hash_val = hash_val << 7 ^ pKey[i];
 
     return hash_val;
@@ -228,7 +228,7 @@ struct StringHasher<FNV> : public std::unary_function<const std::string&, uint32
   {
     const uint32_t fnv_prime = 0x811C9DC5;
     uint32_t hash_val = 0;
-    for(uint32_t i = 0; i < pKey.size(); ++i) {
+    for(size_t i = 0; i < pKey.size(); ++i) {
       hash_val *= fnv_prime;
       hash_val ^= pKey[i];
     }
@@ -248,7 +248,7 @@ struct StringHasher<AP> : public std::unary_function<const std::string&, uint32_
   {
     unsigned int hash_val = 0xAAAAAAAA;
 
-    for(uint32_t i = 0; i < pKey.size(); ++i) {  
+    for(size_t i = 0; i < pKey.size(); ++i) {  
       hash_val ^= ((i & 1) == 0)?
                           ((hash_val <<  7) ^ pKey[i] * (hash_val >> 3)):
                           (~((hash_val << 11) + (pKey[i] ^ (hash_val >> 5))));
@@ -278,7 +278,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
   uint32_t operator()(const std::string& pString) const
   {
     uint32_t result = 0x0;
-    unsigned int dot = 0;
+    size_t dot = 0;
     std::string::size_type idx;
     for (idx = 0; idx < pString.size(); ++idx) {
       int cur_char = pString[idx];
@@ -308,7 +308,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
     }
-    result |= (std::min(dot, 15u) << 28); //< only 4 bits to count the dots
+    result |= ((uint32_t)std::min<size_t>(dot, 15) << 28); //< only 4 bits to count the dots
     return result;
   }
 
-- 
2.43.0


From 3dc8e3a72c4a19e0cc1bc763eacd98f88a3720fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 45/47] fix: RSA decryption: refuse a text whose length an int
 does not hold

---
 tools/eni_crypto/eni_crypto.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index e9db5e5..1b3d759 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -99,7 +99,10 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
+  int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size)
+    return false;
+  std::vector<unsigned char> decrypted(size);
   int len = ::RSA_public_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
@@ -131,7 +134,10 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
+  int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size)
+    return false;
+  std::vector<unsigned char> decrypted(size);
   int len = ::RSA_private_decrypt(pMsg.length(),
     reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
-- 
2.43.0


From 52b346fc7c0eac10f02f7097620391d4d91ca156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 46/47] fix: HashTable: refuse to rehash to more buckets than
 can be numbered

---
 include/eni/adt/HashTable.h        | 1 +
 include/eni/adt/bits/HashTable.tcc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/HashTable.h b/include/eni/adt/HashTable.h
index 5748653..d727af7 100644
--- a/include/eni/adt/HashTable.h
+++ b/include/eni/adt/HashTable.h
@@ -10,6 +10,7 @@
 #include <adt/HashBase.h>
 #include <adt/HashIterator.h>
 #include <support/MallocAllocator.h>
+#include <limits>
 
 namespace eni {
 
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 189b4df..4c7a59f 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -233,6 +233,8 @@ void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
   if (pCount <= super::m_NumOfEntries) //< keep at least one bucket empty
     pCount = super::m_NumOfEntries + 1;
+  if (pCount > (size_type)std::numeric_limits<int>::max()) //< a place is an int
+    throw BadAlloc<NoMemory>();
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 6fced8a3f59a710426974ca67972258c42dab275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 47/47] fix: rsa: no blinding, whose chance shows in the
 results of inconsistent keys

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 1b3d759..3f987a7 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -70,6 +70,10 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, const_cast<char*>(""));
   BIO_free(bio);
+  // Blinding multiplies by a random number, which cancels out only if the
+  // parts of the key fit together: with others the result would be random.
+  if (NULL != key)
+    RSA_blinding_off(key);
   return key;
 }
 
-- 
2.43.0

