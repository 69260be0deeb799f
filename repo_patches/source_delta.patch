From 2ed5919eaacbc3e3cc9d3bca8f0ac7304b2a0c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 01/96] fix: CompactArray initializer list wrote through the
 heap pointer of an inline array; self move-assign freed its own storage

---
 include/bss-util/CompactArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..abfce99 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
@@ -128,6 +128,7 @@ namespace bss {
     }
     inline CompactArray& operator=(CompactArray&& mov)
     {
+      if(this == &mov) return *this;
       if(!(_length&COMPACTFLAG) && _array != 0)
         Alloc::deallocate(_array, _capacity);
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 159cfccf296377d89520d28f19719c29c515cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 02/96] fix: self-assignment and self-append of Array and
 DynArray destroyed or overran their own contents

---
 include/bss-util/Array.h    | 7 +++++--
 include/bss-util/DynArray.h | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..966b7d2 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,7 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy) return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
@@ -349,6 +350,7 @@ namespace bss {
     }
     BSS_FORCEINLINE Array& operator=(Array&& mov) noexcept
     { 
+      if(this == &mov) return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::operator=(std::move(mov));
       return *this;
@@ -361,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT n = add._capacity; // add might be this array
+      BASE::_setCapacity(old + n, old);
+      BASE::_copy(_array + old, add._array, n);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..e5a5241 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,7 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy) return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
@@ -105,7 +106,7 @@ namespace bss {
       _length = copy._length;
       return *this;
     }
-    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
+    inline DynArray& operator=(DynArray&& mov) { if(this == &mov) return *this; BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
     inline DynArray& operator=(const Slice<const T, CT>& copy) { Set(copy); return *this; }
     inline DynArray& operator +=(const DynArray& add)
     {
-- 
2.43.0


From dd9d59dfaebcfd427b466b14cb884d85e692d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 03/96] fix: packed bit array lost carries on insert, recursed
 in SetCapacity and misread bytes in
 AddConstruct/Front/Back/operator=/GetRawByte

---
 include/bss-util/DynArray.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index e5a5241..3b91717 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -192,7 +192,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); GetBit(_length) = false; return _length++; }
     inline void Remove(CT index)
     {
       assert(index < _length);
@@ -214,7 +214,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
@@ -239,14 +239,14 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return GetBit(0); }
+    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
     BSS_FORCEINLINE BITREF operator[](CT index) { assert(index < _length); return GetBit(index); }
     // This gets the raw storage byte in such a way that unused bits are always set to zero. Useful for debugging.
-    inline STORE GetRawByte(CT index) const { assert(index < _capacity); return (index < (_capacity - 1)) ? _array[index] : (_array[index] & ((STORE)(~0) >> ((_capacity*DIV_AMT) - _length))); }
+    inline STORE GetRawByte(CT index) const { assert(index < _capacity); return (((CT)(index + 1) * DIV_AMT) <= _length) ? _array[index] : (((CT)(index * DIV_AMT) >= _length) ? (STORE)0 : (_array[index] & ((STORE)(~0) >> (((CT)(index + 1) * DIV_AMT) - _length)))); }
 
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> begin() const { return GetBit(0); }
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> end() const { return GetBit(_length); }
@@ -255,9 +255,10 @@ namespace bss {
 
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(&copy == this) return *this;
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
@@ -318,12 +319,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
-        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        STORE next = _array[i];
+        _array[i] = (store >> MOD_AMT) | ((next << 1) & (STORE)(~1));
+        store = next;
       }
     }
 
-- 
2.43.0


From a6702b947c905cb036aeb6cc7b432345df0aa708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 04/96] fix: BitStream::Read merged a partial byte into
 uninitialised destination bits

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From a17692558757d95c54469f5d604d451961a3676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:23 +0000
Subject: [PATCH 05/96] fix: Stack copy/move constructors, self-assignment of
 ArrayCircular, and undestroyed elements in Queue::Discard and RandomQueue

---
 include/bss-util/ArrayCircular.h | 2 ++
 include/bss-util/Queue.h         | 2 +-
 include/bss-util/RandomQueue.h   | 9 +++++++--
 include/bss-util/Stack.h         | 4 ++--
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..0b59496 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,7 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(&right == this) return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
@@ -120,6 +121,7 @@ namespace bss {
     }
     inline ArrayCircular& operator=(ArrayCircular&& right)
     {
+      if(&right == this) return *this;
       Clear();
       BASE::operator=(std::move(right));
       _cur = right._cur;
diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..91e88d9 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { assert(_length != 0); BASE::Back().~T(); --_length; }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..647cf9d 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,14 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index)
+    {
+      if(index != _length - 1)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast();
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From b5337e1ff9417fae0a455c6a6e4d787dc648e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:12 +0000
Subject: [PATCH 06/96] fix: LinkedArray move constructor did not compile and
 moved-from arrays kept stale links

---
 include/bss-util/LinkedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..5face86 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = (CT_)-1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
-- 
2.43.0


From fd5963197f71bcbe463adb1189466e2ad38374ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:56 +0000
Subject: [PATCH 07/96] fix: self-assignment of Hash lost its contents

---
 include/bss-util/Hash.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..aff684b 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(&copy == this)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
@@ -318,6 +320,8 @@ namespace bss {
 
     Hash& operator=(Hash&& mov)
     {
+      if(&mov == this)
+        return *this;
       Clear();
       _freeall();
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 5639c900a97a616608674c821d07a721a8f2b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 08/96] fix: tree move operations mixed allocators, AATree used
 an uninitialised node in Remove and kept its root after Clear, threaded near
 query stopped at duplicates

---
 include/bss-util/AATree.h  |  9 +++++----
 include/bss-util/AVLTree.h | 13 +++++++++++--
 include/bss-util/TRBtree.h | 13 +++++++++----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..1acb4cf 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -41,7 +41,7 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data) { _deleted = _last = _sentinel; return _remove(_root, data); }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
@@ -59,7 +59,7 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear() { _clear(_root); _root = _sentinel; }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
@@ -79,9 +79,10 @@ namespace bss {
     template<void(*FACTION)(T&)>
     inline void _traverse(AANODE<T>* n)
     {
-      _traverse(n->left);
+      if(n == _sentinel) return;
+      _traverse<FACTION>(n->left);
       FACTION(n->data);
-      _traverse(n->right);
+      _traverse<FACTION>(n->right);
     }
     inline void _skew(AANODE<T>*& n)
     {
diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..a124f38 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -161,11 +161,20 @@ namespace bss {
       return (cur != 0);
     }
 
-    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }
+    inline AVLTree& operator=(AVLTree&& mov) 
+    {
+      if(&mov == this)
+        return *this;
+      Clear();
+      std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(mov)); // The nodes belong to the allocator they came from
+      _root = mov._root;
+      mov._root = 0;
+      return *this;
+    }
 
   protected:
     template<typename F>
-    BSS_FORCEINLINE static void _traverse(F lambda, Node* node)
+    inline static void _traverse(F lambda, Node* node)
     {
       if(!node)
         return;
diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..8608cdf 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -398,12 +398,12 @@ namespace bss {
   public:
     BSS_FORCEINLINE static char CompNode(const TRB_Node<T>& l, const TRB_Node<T>& r) { return CFunc(l.value, r.value); }
 
-    inline TRBtree(TRBtree&& mov) : Alloc(std::move(mov)), _first(mov._first), _last(mov._last), _root(mov._root), NIL(mov.NIL)
+    inline TRBtree(TRBtree&& mov) : Alloc(static_cast<const Alloc&>(mov)), _first(mov._first), _last(mov._last), _root(mov._root), NIL(mov.NIL)
     {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
@@ -480,7 +480,10 @@ namespace bss {
 
     inline TRBtree& operator=(TRBtree&& mov)
     {
+      if(&mov == this)
+        return *this;
       Clear();
+      std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(mov)); // The nodes belong to the allocator they came from
       TRB_Node<T>* nil = NIL;
       _first = mov._first;
       _last = mov._last;
@@ -528,8 +531,10 @@ namespace bss {
 
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
-      else
-        return (res > 0 && parent->next) ? parent->next : parent;
+
+      while(res > 0 && parent->next && parent->next->color == -1) // skip past duplicates of a smaller value
+        parent = parent->next;
+      return (res > 0 && parent->next) ? parent->next : parent;
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From da20854b0e1eb4e7febaec18171bdfece47ffc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 09/96] fix: CompactArray::SetCapacity below the length cut off
 live elements

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index abfce99..a3c0128 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -85,7 +85,7 @@ namespace bss {
     }
     inline void SetCapacity(CT capacity)
     {
-      if(capacity > I)
+      if(capacity > I && capacity >= Length()) // Never drop elements that are still in use
       {
         capacity = T_FBNEXT(capacity);
 
-- 
2.43.0


From 84d630d39f176daec4b0696266c685a42996c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:05 +0000
Subject: [PATCH 10/96] fix: BinaryHeap::Remove broke the heap order,
 PriorityHeap moves lost their handles, array construction did not compile

---
 include/bss-util/BinaryHeap.h    | 18 ++++++++++++------
 include/bss-util/PriorityQueue.h |  5 ++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..bd2ff37 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,14 +43,14 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
     template<CT I>
     inline explicit BinaryHeap(const T(&src)[I]) : BinaryHeap(src, I) {}
     template<CT I>
-    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src, I) {}
+    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src.data(), I) {}
     inline ~BinaryHeap() {}
     inline const T& Peek() { return _array[0]; }
     inline const T& Get(CT index) { assert(index < _length); return _array[index]; }
@@ -61,19 +61,25 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
     // Sets a key and percolates
     inline bool Set(CT index, const T& val) { return _set(index, val); }
     inline bool Set(CT index, T&& val) { return _set(index, std::move(val)); }
-    // To remove a node, we replace it with the last item in the heap and then percolate down
+    // To remove a node, we replace it with the last item in the heap and then percolate up or down
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      CT last = _length - 1;
+      if(index < last) // If we're removing the last item there is nothing to percolate
+      {
+        if(index > 0 && CFunc(_array[last], _array[CBH_PARENT(index)]) > 0) // The last item can come from a different subtree
+          PercolateUp(_array, last, index, _array[last], this);
+        else
+          PercolateDown(_array, last, index, _array[last], this);
+      }
       BASE::RemoveLast();
       return true;
     }
diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..515f755 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -65,7 +65,7 @@ namespace bss {
 
   public:
     PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
@@ -91,8 +91,11 @@ namespace bss {
     }
     inline PriorityHeap& operator=(PriorityHeap&& mov) 
     { 
+      if(&mov == this)
+        return *this;
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From 5902d6d803e01b79166cc2726b81949293cd99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:06 +0000
Subject: [PATCH 11/96] fix: DisjointSet copies and AddSets did not compile and
 Union of a set with itself corrupted the forest

---
 include/bss-util/DisjointSet.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..53039f6 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,9 +20,9 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      memcpy(_array, copy._array, _capacity * sizeof(Ty)); 
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -36,10 +36,10 @@ namespace bss {
       _capacity = num;
       Reset();
     }
-    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
+    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names or are the same set.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
@@ -100,7 +100,8 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
+      _numsets += n;
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
@@ -178,15 +179,20 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(&copy == this)
+        return *this;
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      memcpy(_array, copy._array, _capacity * sizeof(Ty));
       _numsets = copy._numsets;
       return *this;
     }
     inline DisjointSet& operator=(DisjointSet&& mov) 
     {
+      if(&mov == this)
+        return *this;
       ARRAY::operator=(std::move(mov)); 
       _numsets = mov._numsets;
+      mov._numsets = 0;
       return *this;
     }
 
-- 
2.43.0


From 996a5cc0c0f50240d724a101293a32f4d206a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 12/96] fix: size the bit test-and-set/reset instructions so
 the right bit is used with an immediate operand

---
 include/bss-util/lockless.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..08add77 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -211,10 +211,10 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "Ir" (bit) : "cc", "memory");
         return retval != 0;
       }
     };
@@ -223,10 +223,10 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "Jr" (bit) : "cc", "memory");
         return retval != 0;
       }
     };
@@ -248,10 +248,10 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "Ir" (bit) : "cc", "memory");
         return retval != 0;
       }
     };
@@ -260,10 +260,10 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "Jr" (bit) : "cc", "memory");
         return retval != 0;
       }
     };
-- 
2.43.0


From ef11b2b424c451b1ebc00439b54550ac39ff9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 13/96] fix: 4-byte compare-exchange operates on 4 bytes, not
 on a long

---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index 08add77..c48ede6 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 455617fb00b75f82a9013d70b9dae94a01c4e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 14/96] fix: caching/greedy/lockless pool allocators: moved
 cache travels with its memory, assignment frees old chunks, shrink returns
 the block under its real size

---
 include/bss-util/BlockAllocMT.h | 10 ++++++++++
 include/bss-util/CacheAlloc.h   |  6 ++----
 include/bss-util/GreedyAlloc.h  | 11 +++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..9761c2b 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -92,6 +92,16 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
+
+      while(_root)
+      {
+        Node* next = _root->next;
+        free(_root);
+        _root = next;
+      }
+
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..4e89d70 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, bssmin(cnt, old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..34da1e0 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,17 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+
+      Node* hold = _root.load(std::memory_order_relaxed);
+      while(hold)
+      {
+        Node* next = hold->next;
+        ALIGNEDFREE(hold);
+        hold = next;
+      }
+
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From 27aed88057d6ad7505739b0b438320c007d2e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:39 +0000
Subject: [PATCH 15/96] fix: reference-counted and owning pointer assignment,
 variant alignment and empty assignment

---
 include/bss-util/RefCounter.h | 21 ++++++++++++---------
 include/bss-util/SmartPtr.h   |  8 +++++++-
 include/bss-util/Variant.h    | 13 ++++---------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..e8ebdf6 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,21 +63,24 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
+      T* p = right._p;
+      right._p = 0;
+      T* old = _p;
+      _p = p;
+      if(old != 0)
+        old->Drop();
 
-      _p = right._p;
-      right._p = 0; 
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
+      if(right != 0) // Grab before dropping, because our own reference may be the one keeping right alive
+        right->Grab();
 
-      _p = right; 
-      if(_p != 0) 
-        _p->Grab(); 
+      T* old = _p;
+      _p = right;
+      if(old != 0)
+        old->Drop();
 
       return *this; 
     }
diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..3ecf5b4 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,9 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
+
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,9 +64,12 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(this == &right)
+        return *this;
+
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; 
       right._owner = false;
       return *this; 
     }
diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..e2be4b6 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -38,11 +38,10 @@ namespace bss {
     template<typename A, typename... Ax>
     struct max_alignof {
       static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
     };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -216,7 +215,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -229,7 +228,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -262,11 +261,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, with the correct alignment for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 2c881ffccd8ed4a0ab084db41de4367583ff714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:28 +0000
Subject: [PATCH 16/96] fix: Scheduler::Update peeked an empty heap, ran
 callbacks inside the heap's memory and rescheduled negative intervals

---
 include/bss-util/Scheduler.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..8bc35a0 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,14 +33,17 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
+        std::pair<double, F> cur(BASE::Peek()); // The callback can add events, which moves the heap's memory, so it can't be run from inside the heap
+        BASE::Remove(0);
+        double r = cur.second();
 
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        if(r > 0.0)
+        {
+          cur.first = r + _time;
+          BASE::Insert(std::move(cur));
+        }
       }
     }
   };
-- 
2.43.0


From 134249efe60083055fc1e13158c74fafa8ab5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:48 +0000
Subject: [PATCH 17/96] fix: Trie with empty or non-ASCII keys or more than 128
 nodes; StringTable append to an empty table and reload of an empty first
 string

---
 include/bss-util/StringTable.h | 10 ++++++----
 include/bss-util/Trie.h        |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..6a26055 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -36,7 +36,10 @@ namespace bss {
       stream->read((char*)(T*)_strings, _strings.Capacity() * sizeof(T));
       _strings[(stream->gcount() / sizeof(T)) - 1] = '\0'; //make sure the end is a null terminator
 
-      _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
+      CT_ count = 0;
+      for(CT_ i = 0; i < _strings.Capacity(); ++i) // strccount can't be used because it stops if the first string is empty
+        count += !_strings[i];
+      _indices.SetCapacity(count);
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
 
       CT_ j = 1;
@@ -61,19 +64,18 @@ namespace bss {
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
     inline void AppendString(const char* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = _strings.Capacity(); // The new string always goes after everything that's already in the table
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
-      last = _strings.Capacity();
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
       memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
     };
     // Returns index array
     inline const CT_* GetIndices() const { return _indices; }
     // Dumps table to stream
-    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)_strings, _strings.Capacity() * sizeof(T)); }
+    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)(const T*)_strings, _strings.Capacity() * sizeof(T)); }
 
     inline const T* operator[](CT_ index) { return GetString(index); }
     inline StringTable& operator=(const StringTable& right)
diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..675e69c 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((unsigned char)t.chr, (unsigned char)c); } // must match the order of strcmp, which compares unsigned characters
 
   protected:
     void _construct(T num, const char* const* initstr)
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((s > (std::numeric_limits<T>::max() >> 1)) ? std::numeric_limits<T>::max() : (T)(s << 1)); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt);
+        _array[cnt].word = str[0].first; // r + 1 would be promoted to int and not wrap around for small T
         ++str;
         --len; 
       }
-- 
2.43.0


From 40e1b42c1e5e3796bc97c60f96183ad505422795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:24 +0000
Subject: [PATCH 18/96] fix: KDTree rebalancing and solving left items on the
 wrong side of a divider

---
 include/bss-util/KDTree.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..b15d7ff 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -133,7 +133,7 @@ namespace bss {
     {
       float rect[4] = { -FLT_MAX, -FLT_MAX, FLT_MAX, FLT_MAX };
       KDNode<T>* parents[4] = { 0 };
-      float total[2];
+      float total[2] = { 0 };
       _rebalance(node, rect, parents, total); // We don't bother trying to do a checkdestroy here because it isn't possible. In order for this node to be rebalanced, it must have images, and those images cannot go higher than this node in the tree.
     }
     inline void InsertRoot(T* item)
@@ -166,7 +166,8 @@ namespace bss {
         *pnode = 0;
         return;
       }
-      node->div = node->total[node->axis] / (node->num * 2);
+      if(!node->left && !node->right) // If there already are children, moving the divider would put their items on the wrong side
+        node->div = node->total[node->axis] / (node->num * 2);
 
       KDNode<T>** p;
       KDNode<T>* h;
@@ -210,8 +211,11 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
-        parents[axis + 2] = node;
+        if(node->div < rect[axis + 2]) // The new divider can lie outside of the region this node is responsible for
+        {
+          rect[axis + 2] = node->div;
+          parents[axis + 2] = node;
+        }
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
         _checkDestroy(node->left);
@@ -221,8 +225,11 @@ namespace bss {
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
-        parents[axis] = node;
+        if(node->div > rect[axis])
+        {
+          rect[axis] = node->div;
+          parents[axis] = node;
+        }
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
         _checkDestroy(node->right);
@@ -240,9 +247,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From 7ac9cc50aa15e9a6f78391b38d0f0911892501a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:00 +0000
Subject: [PATCH 19/96] fix: graph max-flow (parallel source edges, two-node
 networks, non-terminating relabel), duplicate visits in breadth-first search,
 ToMatrix vertex order, edge leak on move assignment

---
 include/bss-util/Graph.h | 61 ++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..8141ac0 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -78,7 +78,7 @@ namespace bss {
     // Build a matrix out of only a list of nodes
     inline Graph(CT n, const V* nodes) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(nodes + i); }
     inline explicit Graph(CT n) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(); }
-    inline ~Graph() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
+    inline ~Graph() { _removeEdges(); }
     inline CT NumNodes() const { return _nodes.Length(); }
     inline CT NumEdges() const { return _nedges; }
     inline CT Capacity() const { return _nodes.Capacity(); }
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
@@ -153,6 +153,7 @@ namespace bss {
     inline Node<E, V, CT>& operator[](CT index) { return _nodes[index]; }
     inline Graph& operator=(Graph&& mov) 
     { 
+      _removeEdges();
       Alloc::operator=(std::move(mov));
       _nodes = std::move(mov._nodes); 
       _nedges = mov._nedges; 
@@ -166,6 +167,7 @@ namespace bss {
     typedef Edge<E, CT> EDGE_;
 
   protected:
+    inline void _removeEdges() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
     template<typename D, bool(*ISEDGE)(const D*)>
     void _construct(CT n, const D* M, const V* nodes)
     {
@@ -217,13 +219,13 @@ namespace bss {
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
+      seen[i] = nodes[i].to;
 
       if(i != s && i != t)
       {
@@ -239,9 +241,11 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
+    auto skiploop = [](PEDGE e, CT n) { while(e != 0 && e->from == n) e = e->alt.next; return e; }; // self-loops are only tried as forward edges
+    auto firstback = [&](CT n) { return skiploop(nodes[n].from, n); };
     int send;
     CT last = -1;
     CT lh;
@@ -259,31 +263,21 @@ namespace bss {
           send = INT_MAX;
 
           for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
+          {
+            if(edge->to != k && edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
           }
 
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
-          {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+          for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
+          { // We must consider sending flow backwards too, or two vertices can pass the same flow back and forth forever
+            if(edge->from != k && edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
           }
-          else
-            seen[k] = nodes[k].to;
 
+          if(send == INT_MAX) // There is nowhere to send this flow
+            break;
+          height[k] = send + 1;
+          seen[k] = nodes[k].to ? nodes[k].to : firstback(k);
           continue;
         }
         if(excess[k] > 0)
@@ -301,7 +295,10 @@ namespace bss {
             excess[k] -= send;
           }
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
+        if(seen[k]->from != k)
+          seen[k] = skiploop(seen[k]->alt.next, k);
+        else
+          seen[k] = seen[k]->next ? seen[k]->next : firstback(k); // After trying all forward edges, try to send flow backwards
       }
 
       if(lh != height[k]) // If the height changed...
@@ -423,8 +420,11 @@ namespace bss {
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Find(edge->to) != root)
+      {
+        set.Union(root, edge->to); // Nodes are marked when they are enqueued so they can't be enqueued twice
         queue[l++] = edge->to;
+      }
     }
 
     for(size_t i = 0; i != l; ++i) // Go through the queue
@@ -432,12 +432,13 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
-
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
         if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        {
+          set.Union(root, edge->to);
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
+        }
       }
     }
   }
-- 
2.43.0


From 007170ad049e1f7d432a47114434616fc84f94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:29 +0000
Subject: [PATCH 20/96] fix: MicroLockQueue looks at the head node only while
 holding the consumer flag

Pop and Peek read _div->next without the flag, while another consumer may already have destroyed that node and given its memory back.
---
 include/bss-util/LocklessQueue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..aac2440 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -168,8 +168,6 @@ namespace bss {
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
     {
-      if(!_div->next) return false; // Remove some contending pressure
-
       while(_cflag.test_and_set(std::memory_order_acquire));
       QNODE* ref = _div;
       QNODE* n = _div->next;
@@ -188,7 +186,13 @@ namespace bss {
       _cflag.clear(std::memory_order_release);
       return false;
     }
-    inline bool Peek() { return _div->next != 0; }
+    inline bool Peek()
+    {
+      while(_cflag.test_and_set(std::memory_order_acquire)); // Another consumer could destroy the node _div points to while we look at it
+      bool r = _div->next != 0;
+      _cflag.clear(std::memory_order_release);
+      return r;
+    }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 497fc5e3adca88f4a5e5003ef5ba4a1410fd59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:10 +0000
Subject: [PATCH 21/96] fix: INIsection::EditEntry is defined in the library,
 so it must not be inline

---
 include/bss-util/INIsection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/INIsection.h b/include/bss-util/INIsection.h
index dcfa8cd..571c30b 100644
--- a/include/bss-util/INIsection.h
+++ b/include/bss-util/INIsection.h
@@ -50,7 +50,7 @@ namespace bss {
     // Gets the specified key node for iteration with the given index. Returns null on failure.
     _NODE* GetEntryNode(const char* key, size_t instance = 0) const;
     // Changes the specified entry data with the given index, if data is nullptr the entry is deleted. if instance is -1 the entry is inserted.
-    inline char EditEntry(const char* key, const char* data, size_t instance = 0);
+    char EditEntry(const char* key, const char* data, size_t instance = 0);
     // Gets the root node of the section linked list
     inline const _NODE* Front() const { return _root; }
     // Gets the last node of the section linked list
-- 
2.43.0


From 7f138ba0bfc84e9e88f87dae4e8379f7e17a0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 22/96] fix: INI parser reads the last line of a file twice
 when the file ends with a newline

---
 bss-util/INIParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..077c502 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -155,7 +155,8 @@ char bssParseLine(INIParser* parse)
 
   while(!feof(parse->file))
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
+    if(!fgets(parse->buf, MAXLINELENGTH, parse->file))
+      break; // nothing was read, so the buffer still holds the previous line
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
-- 
2.43.0


From f22cfdec368e2e4147328087fb0f75eaac4651ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 23/96] fix: INI parser writes past the end of an empty value

---
 bss-util/INIParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 077c502..63196cf 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
-- 
2.43.0


From 55271394d90520411654ed6de89a64a664c8ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 24/96] fix: INI parser drops non-ASCII characters at the end
 of names and values

---
 bss-util/INIParser.c    | 10 +++++-----
 bss-util/INIstorage.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 63196cf..2ebc530 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,7 +60,7 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && inter[-1] < 33; --inter);
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
   *inter = '\0';
   return str;
 }
@@ -93,7 +93,7 @@ char* _validatesection(char* start)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -102,7 +102,7 @@ char* _validatesection(char* start)
 char _validatekey(const char* start, const char* end)
 {
   for(; start < end; ++start)
-    if(*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
+    if((unsigned char)*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
   return 0;
 }
 
@@ -206,7 +206,7 @@ const char* _svalidatesection(const char* start, const char* end)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -219,7 +219,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..69843e7 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -24,7 +24,7 @@ const T* ltrimstr(const T* str)
 template<typename T>
 const T* rtrimstr(const T* end, const T* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && *end > 0 && *end < 33; --end);
   return end;
 }
 
-- 
2.43.0


From 68797d6e600927f0758ba609c281e356a3d35e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 25/96] fix: INI lookups in the file text match sections and
 keys by prefix

---
 bss-util/INIParser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 2ebc530..47c6833 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -230,7 +230,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return (a != b) ? 1 : STRNICMP(start, comp, a);
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
-- 
2.43.0


From 6f4558242f1e0a54143d79d64e1ee6c7766b7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 26/96] fix: removing the first of several equally named INI
 sections or entries leaves a dangling key in the hash

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 69843e7..47dfae3 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -180,8 +180,10 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
     if(!instance && secnode->instances.Capacity() > 0)
     {
       instance = 1;
+      _sections.RemoveIter(iter); // The hash's key points to the name that is about to be replaced
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -255,7 +257,9 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     if(!keyinstance && entnode->instances.Capacity() > 0)
     {
       keyinstance = 1;
+      psec->_entries.RemoveIter(iter); // The hash's key points to the key that is about to be replaced
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0


From 7d32a1f6787f16867b96eb8dd5ab50f762d3b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 27/96] fix: INIsection move assignment leaks the entries it
 replaces

---
 bss-util/INIsection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..b40f947 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -114,6 +114,7 @@ INIsection& INIsection::operator=(INIsection&& mov)
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
+  _destroy();
   _entries=std::move(mov._entries);
   _root=mov._root;
   _last=mov._last;
-- 
2.43.0


From 6c7ebd2b695afa2306532e7326950c77881981b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 28/96] fix: copying an INI storage or section with repeated
 names writes into the source and loses instances

---
 bss-util/INIsection.cpp | 5 ++---
 bss-util/INIstorage.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index b40f947..48b64bc 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -61,11 +61,10 @@ void INIsection::_copy(const INIsection& copy)
     if(t->instances.Capacity()!=0) {
       _entries.Insert(p->val.GetKey(),p);
       p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
+      last=p;
     } else if(c>0) {
       assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity()-(c--)]=p; //This never goes negative because c>0 and is therefore at least 1
     } else
       _entries.Insert(p->val.GetKey(),p);
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 47dfae3..d26523a 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -373,13 +373,12 @@ void INIstorage::_copy(const INIstorage& copy)
     {
       _sections.Insert(p->val.GetName(), p);
       p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
+      last = p;
     }
     else if(c > 0)
     {
       assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity() - (c--)] = p; //This never goes negative because c>0 and is therefore at least 1
     }
     else
       _sections.Insert(p->val.GetName(), p);
-- 
2.43.0


From 209c50b87cbc9c3072cf6aab5880d586e9d0f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 29/96] fix: a copied or moved INI storage must own its
 sections, and move assignment must not destroy what it just took over

---
 bss-util/INIstorage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index d26523a..7d2de78 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -58,6 +58,8 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
+  for(_NODE* t = _root; t; t = t->next)
+    t->val._parent = this;
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
@@ -364,6 +366,7 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
@@ -406,6 +409,7 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _path = std::move(mov._path);
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
+  _destroy();
   _ini = mov._ini;
   _root = mov._root;
   _last = mov._last;
@@ -413,8 +417,9 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
+  for(_NODE* t = _root; t; t = t->next)
+    t->val._parent = this;
   return *this;
 }
 
-- 
2.43.0


From 5434d197d194a18f310347cbf0f22490d3f93b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 30/96] fix: default-constructed INIstorage dereferences a null
 path

---
 bss-util/INIstorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7d2de78..d941e70 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -63,6 +63,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
+  if(!file) return;
   FILE* f;
   FOPEN(f, file, ("rt"));
   if(f)
-- 
2.43.0


From 4e82ef28733ac056338227ca401b78e60c1d7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 31/96] fix: editing an INI whose file can't be opened
 dereferences a null pointer

---
 bss-util/INIstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index d941e70..b7be1dd 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -30,6 +30,7 @@ const T* rtrimstr(const T* end, const T* begin)
 
 void INIstorage::_openINI()
 {
+  _ini = new Str(); // An INI that has no file (or can't open it) can still be edited and saved to another path
   Str targetpath = _path;
   targetpath += _filename;
   FILE* f;
@@ -38,7 +39,6 @@ void INIstorage::_openINI()
   fseek(f, 0, SEEK_END);
   size_t size = (size_t)ftell(f);
   fseek(f, 0, SEEK_SET);
-  _ini = new Str();
   _ini->resize(size);
   size = fread(_ini->UnsafeString(), sizeof(char), size, f); //reads in the entire file
   _ini->UnsafeString()[size] = '\0';
-- 
2.43.0


From 77d415272af4c1d519ab18e2a253caf8f86db50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:33 +0000
Subject: [PATCH 32/96] fix: INI section headers without a name are garbage, as
 the validation intends, not sections with an empty name

---
 bss-util/INIParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 47c6833..35b92d3 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -171,7 +171,7 @@ char bssParseLine(INIParser* parse)
       }
       break;
     case 1: //section identifier
-      sec = _validatesection(tc); //if the validation function returns nullptr its garbage
+      sec = _validatesection(tc + 1); //if the validation function returns nullptr its garbage
       if(sec != 0 && sec != (++tc)) { sec[0] = '\0'; _newsection(parse, tc); return -1; }
       break;
     }
@@ -254,7 +254,7 @@ INICHUNK bssFindINISection(const void* data, size_t length, const char* section,
         retval.end = --cur;
         break;
       }
-      sec = _svalidatesection(tc, line); //if the validation function returns nullptr its garbage
+      sec = _svalidatesection(tc + 1, line); //if the validation function returns nullptr its garbage
       if(sec != 0 && sec != (tc + 1) && comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
       {
         retval.start = tc; //this is safe because we already verified that there is at least one valid character in this string. Ok, it still isn't safe, but it won't explode.
-- 
2.43.0


From d2d422304a72a5945d9448ac17fee8f3ba981449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 33/96] fix: editing an INI section stops at malformed section
 headers that loading ignores

---
 bss-util/INIParser.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 35b92d3..03df500 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -249,13 +249,16 @@ INICHUNK bssFindINISection(const void* data, size_t length, const char* section,
     if(!line) line = end; //if that returned nothing we're on the last line
     if(_snextkeychar(&tc, cur, line) == 1)
     {
+      sec = _svalidatesection(tc + 1, line); //if the validation function returns nullptr its garbage
       if(retval.start != 0) //if this is true we already found the section and now we're just looking for the next valid one
       {
-        retval.end = --cur;
-        break;
+        if(sec != 0 && sec != (tc + 1))
+        {
+          retval.end = --cur;
+          break;
+        }
       }
-      sec = _svalidatesection(tc + 1, line); //if the validation function returns nullptr its garbage
-      if(sec != 0 && sec != (tc + 1) && comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
+      else if(sec != 0 && sec != (tc + 1) && comparevalues(tc + 1, sec, section) == 0 && (++curinstance) == instance)
       {
         retval.start = tc; //this is safe because we already verified that there is at least one valid character in this string. Ok, it still isn't safe, but it won't explode.
         retval.end = end; //just in case this is the last section
-- 
2.43.0


From a74e877aeb1391b77574ea5bf623128732575e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 34/96] fix: JSON object keys are written without escaping

---
 include/bss-util/JSON.h | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..6d2a4a0 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -122,10 +122,34 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
+    static inline void WriteJSONString(const char* str, size_t len, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < len; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default: s << str[i]; break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONComma(std::ostream& s, size_t& pretty)
     {
       if(pretty & JSONEngine::PRETTYFLAG)
@@ -380,25 +404,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.data(), obj.size(), s);
   }
 
   template<>
-- 
2.43.0


From 47a3b051dc5c4af73498e6175394b34acc30ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 35/96] fix: JSON null values are not written, and reading null
 into a JSONValue keeps its old value

---
 include/bss-util/JSON.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 6d2a4a0..7b4ad19 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -310,7 +310,7 @@ namespace bss {
       ParseJSONBase<Str>(e, buf, s);
       if(!STRICMP(buf.c_str(), "true")) target = true;
       else if(!STRICMP(buf.c_str(), "false")) target = false;
-      else if(!STRICMP(buf.c_str(), "null")) break;
+      else if(!STRICMP(buf.c_str(), "null")) target = JSONValue();
       else target = buf;
       break;
     }
@@ -431,6 +431,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default:
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
-- 
2.43.0


From d335f0a45a91b36f32933553e73e38e9c0047441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 36/96] fix: JSON writes and reads single byte integers as raw
 characters

---
 include/bss-util/JSON.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 7b4ad19..4e51e62 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -354,15 +354,17 @@ namespace bss {
     if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
       return;
 
+    std::conditional_t<sizeof(T) == 1, int, T> value = obj; // single byte integers would be read as characters
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
-      s >> obj; // grab whatever we can
+      s >> value; // grab whatever we can
       while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
       s.get(); // eat the " character
     }
     else
-      s >> obj;
+      s >> value;
+    obj = (T)value;
   }
 
   template<class T>
@@ -473,7 +475,7 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    (*e.out) << +obj; // promote single byte integers so they aren't written as characters
   }
 
   template<typename T>
-- 
2.43.0


From 319131537e58e5ed27eb64f6c0f05d0aadf6ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 37/96] fix: JSON numbers given as strings eat the character
 after the string, and values that aren't numbers end the parse

---
 include/bss-util/JSON.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 4e51e62..993bdb1 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -358,13 +358,16 @@ namespace bss {
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
-      s >> value; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      bool read = !!(s >> value); // grab whatever we can
+      s.clear(s.rdstate() & ~std::ios_base::failbit);
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the " character
+      if(read)
+        obj = (T)value;
     }
+    else if(s >> value)
+      obj = (T)value;
     else
-      s >> value;
-    obj = (T)value;
+      s.clear(s.rdstate() & ~std::ios_base::failbit); // Anything else (like null) leaves the value alone and gets skipped
   }
 
   template<class T>
-- 
2.43.0


From cc0e26e274ccdcede35df293faba7481f6f726f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 38/96] fix: JSON \u surrogate pairs are decoded as two code
 points

---
 include/bss-util/JSON.h     | 41 ++++++++++++++++++++++++++++++-------
 include/bss-util/bss_util.h |  2 +-
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 993bdb1..444b400 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -91,16 +91,43 @@ namespace bss {
       case 'r': str += '\r'; break;
       case 't': str += '\t'; break;
       case 'u':
-        char buf[5];
-
-        for(int i = 0; i < 4; ++i)
-          buf[i] = src.get();
-
-        buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+        int code = ParseJSONHex(src);
+        if(code >= 0xD800 && code < 0xDC00 && src.peek() == '\\') // high surrogate, which should be followed by a low one
+        {
+          src.get();
+          if(src.peek() == 'u')
+          {
+            src.get();
+            int low = ParseJSONHex(src);
+            if(low >= 0xDC00 && low < 0xE000)
+              code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+            else
+            {
+              OutputUnicode(str, code);
+              code = low;
+            }
+          }
+          else
+          {
+            OutputUnicode(str, code);
+            src.putback('\\');
+            break;
+          }
+        }
+        OutputUnicode(str, code);
         break;
       }
     }
+    static inline int ParseJSONHex(std::istream& src)
+    {
+      char buf[5];
+
+      for(int i = 0; i < 4; ++i)
+        buf[i] = src.get();
+
+      buf[4] = 0;
+      return strtoul(buf, 0, 16);
+    }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
 
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..07893fb 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -331,7 +331,7 @@ namespace bss {
     if(c < 0x0080) s += c;
     else if(c < 0x0800) { s += (0xC0 | c >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     else if(c < 0x10000) { s += (0xE0 | c >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
-    else if(c < 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
+    else if(c <= 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     // Otherwise this is an illegal codepoint so just ignore it
   }
 
-- 
2.43.0


From cc2a62a64bd10f3409e2af46f71aac4cf2c10b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 39/96] fix: JSON members and elements nobody reads are only
 skipped up to their first comma or bracket

---
 include/bss-util/JSON.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 444b400..498f9b2 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -128,6 +128,27 @@ namespace bss {
       buf[4] = 0;
       return strtoul(buf, 0, 16);
     }
+    // Eats everything up to the next comma or closing bracket (of the given kind) that isn't inside a nested value
+    static inline void ParseJSONSkip(std::istream& s, char end)
+    {
+      std::string str;
+      size_t depth = 0;
+      while(!!s && s.peek() != -1 && (depth > 0 || (s.peek() != ',' && s.peek() != end)))
+      {
+        switch(s.get())
+        {
+        case '{':
+        case '[': ++depth; break;
+        case '}':
+        case ']': if(depth > 0) --depth; break;
+        case '"':
+          while(!!s && s.peek() != '"' && s.peek() != -1)
+            ParseJSONEatCharacter(str, s);
+          s.get();
+          break;
+        }
+      }
+    }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
 
@@ -243,8 +264,7 @@ namespace bss {
       ParseJSONEatWhitespace(s);
       f(e, buf.c_str());
 
-      while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) // eat everything up to a , or } character
-        s.get();
+      ParseJSONSkip(s, '}'); // eat everything up to a , or } character
       if(!!s && s.peek() == ',') // Only eat comma if it's there.
         s.get();
 
@@ -365,8 +385,7 @@ namespace bss {
     while(!!s && s.peek() != ']' && s.peek() != -1)
     {
       Add(e, obj, n);
-      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
-        s.get();
+      ParseJSONSkip(s, ']'); // eat everything up to a , or ] character
       if(!!s && s.peek() == ',' && s.peek() != -1) // Only eat comma if it's there.
         s.get();
       ParseJSONEatWhitespace(s);
-- 
2.43.0


From 171c9c8a82c1ad5cd0acfb0beb6d6f77addf5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 40/96] fix: JSON literals followed by whitespace aren't
 recognized and numbers with only an exponent lose it

---
 include/bss-util/JSON.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 498f9b2..595d63f 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -298,6 +298,8 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      while(!target.empty() && isspace((unsigned char)target.back())) // whitespace after the value isn't part of it
+        target.pop_back();
       return;
     }
 
@@ -343,7 +345,7 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
+      const char* dot = strpbrk(buf.c_str(), ".eE");
 
       if(dot)
         target = (double)strtod(buf.c_str(), 0);
-- 
2.43.0


From 27d7a9a61bef493b43318ad44af426f0778bf7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 41/96] fix: parsing a JSON false only consumes its first
 character

---
 include/bss-util/JSON.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 595d63f..6430868 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -62,6 +62,7 @@ namespace bss {
         if(s.get() != val[pos++])
         {
           target = false;
+          while(!!s && isalpha(s.peek())) s.get(); // eat the rest of the word
           return;
         }
       }
-- 
2.43.0


From 46833a84d5dec08f726debc9470b7017a8a98a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 42/96] fix: UBJSON arrays of unsigned integers, enums, nested
 standard containers or UBJSONTuples claim to hold objects

---
 include/bss-util/UBJSON.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..3af9865 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -251,7 +251,12 @@ namespace bss {
   };
 
   namespace internal {
-    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT; };
+    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = (std::is_arithmetic<T>::value || std::is_enum<T>::value) ? UBJSONTuple::TYPE_NONE : (internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT); };
+    template<> struct WriteUBJSONType<UBJSONTuple> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<class T, size_t I> struct WriteUBJSONType<T[I]> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, size_t I> struct WriteUBJSONType<std::array<T, I>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, typename Alloc> struct WriteUBJSONType<std::vector<T, Alloc>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class... Args> struct WriteUBJSONType<std::tuple<Args...>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
     template<> struct WriteUBJSONType<uint8_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_UINT8; };
     template<> struct WriteUBJSONType<char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_INT8; };
     template<> struct WriteUBJSONType<bool> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
-- 
2.43.0


From f4bfea7bed6e5a9505dd74d5a1aca0dc5fc36b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 43/96] fix: UBJSON integers that only fit an unsigned 64 bit
 type are written from an uninitialized string and can't be read

---
 include/bss-util/UBJSON.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3af9865..aa5b473 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -70,6 +70,13 @@ namespace bss {
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
       case TYPE_BIGNUM:
+      {
+        std::string num = std::to_string(n);
+        Length = (int64_t)num.size();
+        String = new char[num.size() + 1];
+        memcpy(String, num.c_str(), num.size() + 1);
+        break;
+      }
       case TYPE_DOUBLE: Double = (double)n; break;
       default: assert(false); break;
       }
@@ -355,7 +362,12 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM: // we can only deal with bignums that fit in our target
+        if constexpr(std::is_floating_point<T>::value)
+          obj = (T)strtod(tuple.String, 0);
+        else
+          obj = (T)(tuple.String[0] == '-' ? (uint64_t)strtoll(tuple.String, 0, 10) : strtoull(tuple.String, 0, 10));
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From 48e20e9fc2bdb8cb603203ea766fb522a32c76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 44/96] fix: bulk reads treat arrays of bytes as arrays of any
 element type, and leave stale elements when they can't be used

---
 include/bss-util/Serializer.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..36c64d7 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -149,8 +149,12 @@ namespace bss {
         }
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
+          size_t length = obj.size();
           obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          if(e.BulkRead(std::begin(obj), std::end(obj), count))
+            return true;
+          obj.resize(length);
+          return false;
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
@@ -370,15 +374,20 @@ namespace bss {
     template<class T, class C, void (T::*SET)(C)>
     static inline bool DynamicRead(Serializer<Engine>& e, T& obj, int64_t count)
     {
-      (obj.*SET)(count);
-      return e.BulkRead(std::begin(obj), std::end(obj), count);
+      if constexpr(sizeof(remove_cvref_t<decltype(*std::begin(obj))>) == 1)
+      {
+        (obj.*SET)(count);
+        return e.BulkRead(std::begin(obj), std::end(obj), count);
+      }
+      else
+        return false;
     }
 
     template<class T>
-    inline bool BulkRead(T && begin, T && end, int64_t count)
+    inline bool BulkRead(T && begin, T && end, int64_t count) // Reads single byte elements
     {
       typedef remove_cvref_t<decltype(*begin)> Element;
-      if constexpr(std::is_trivially_constructible_v<Element> && (std::is_base_of_v<std::random_access_iterator_tag, T> || std::is_array_v<T> || std::is_pointer_v<T>))
+      if constexpr(sizeof(Element) == 1 && !std::is_same_v<Element, bool> && std::is_trivially_constructible_v<Element> && (std::is_base_of_v<std::random_access_iterator_tag, T> || std::is_array_v<T> || std::is_pointer_v<T>))
       {
         if(begin == end)
           return false;
-- 
2.43.0


From ae79de062538cbacbba9ba73696ff2f9f60d5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 45/96] fix: UBJSON strings are cut off at an embedded null
 character, and characters are read into strings as numbers

---
 include/bss-util/UBJSON.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index aa5b473..7fc2801 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -294,7 +294,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -304,7 +304,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, (size_t)tuple.Length);
           break;
         }
       }
-- 
2.43.0


From bf1fa22b74e944b5dc0aea28c97b3c72a1ac6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:06 +0000
Subject: [PATCH 46/96] fix: UBJSON containers whose elements have no bytes of
 their own lose them at the end of the stream

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 7fc2801..8defa0c 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -129,7 +129,7 @@ namespace bss {
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
             break;
 
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
+        while(!!s && (count > 0 || (count < 0 && s.peek() != -1 && s.peek() != TYPE_ARRAY_END)))
         {
           if constexpr(std::is_null_pointer_v<FnAdd>)
           {
-- 
2.43.0


From 31d80a77417058f0ee5c447cfcc14ed40347d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:30 +0000
Subject: [PATCH 47/96] fix: UBJSON objects relocate their keys bitwise, which
 strings don't survive

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 8defa0c..dc5ecf6 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject;
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
-- 
2.43.0


From 210fcf25fcb562c7b39d67cf7f362e801909e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:30 +0000
Subject: [PATCH 48/96] fix: UBJSON members a type doesn't have are not
 skipped, so whatever follows them is misread

---
 include/bss-util/Serializer.h | 10 +++++++++-
 include/bss-util/UBJSON.h     |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 36c64d7..6b94e9c 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -66,6 +66,9 @@ namespace bss {
 
       template<class E, class T, class V = void> struct is_serializable : std::false_type {};
 
+      // Engines whose ParseMany doesn't skip values by itself provide a static ParseDiscard(Serializer<Engine>&) that reads and drops one value
+      template<class E, class V = void> struct can_discard : std::false_type {};
+
       // Classifies types by action performed (value, integer, key-value pair, array)
       template<class Engine, class T>
       struct Action // Arbitrary value
@@ -358,7 +361,11 @@ namespace bss {
     template<typename... Args> // This function must be static due to some corner cases on certain parsers
     inline static void FindParse(Serializer<Engine>& e, const char* key, const Trie<uint16_t>& trie, const std::tuple<std::pair<const char*, Args&>...>& args)
     {
-      _findparse<sizeof...(Args)-1, Args...>::F(e, trie[key], args);
+      uint16_t index = trie[key];
+      if(index < sizeof...(Args))
+        _findparse<sizeof...(Args)-1, Args...>::F(e, index, args);
+      else if constexpr(internal::serializer::can_discard<Engine>::value)
+        Engine::ParseDiscard(e);
       //r_findparse<sizeof...(Args)-1, Args...>(e, trie[key], args);
     }
 
@@ -420,6 +427,7 @@ namespace bss {
 
   namespace internal {
     namespace serializer { // This is used by Serializer, but std::declval requires a complete type, so we have to put the partial specialization below Serializer
+      template<class E> struct can_discard<E, std::void_t<decltype(E::ParseDiscard(std::declval<Serializer<E>&>()))>> : std::true_type {};
       template<class E, class T> struct is_serializable<E, T, std::void_t<decltype(std::declval<T>().template Serialize<E>(std::declval<Serializer<E>&>(), ""))>> : std::true_type {};
     }
   }
diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index dc5ecf6..9e9d3e0 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -316,6 +316,11 @@ namespace bss {
         obj.template Serialize<UBJSONEngine>(e, 0);
       }
     }
+    static void ParseDiscard(Serializer<UBJSONEngine>& e)
+    {
+      UBJSONTuple tuple;
+      tuple.Parse(*e.in, e.engine.type);
+    }
     template<typename F>
     static void ParseMany(Serializer<UBJSONEngine>& e, F && f)
     {
-- 
2.43.0


From 0fd6ff2a9f7fc962b5cc2f4f77b9377e30b3443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:01 +0000
Subject: [PATCH 49/96] fix: JSON control characters without a short escape are
 written raw, which isn't valid JSON

---
 include/bss-util/JSON.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 6430868..3edc6e0 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -192,7 +192,12 @@ namespace bss {
         case '\n': s << "\\n"; break;
         case '\r': s << "\\r"; break;
         case '\t': s << "\\t"; break;
-        default: s << str[i]; break;
+        default:
+          if((unsigned char)str[i] < 0x20)
+            s << "\\u00" << "0123456789abcdef"[str[i] >> 4] << "0123456789abcdef"[str[i] & 0xF];
+          else
+            s << str[i];
+          break;
         }
       }
 
-- 
2.43.0


From 25fc9324aaf62c6cc4816408b838b151f9929c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:15 +0000
Subject: [PATCH 50/96] fix: ArbitraryArray::Add overruns its storage when the
 capacity isn't a multiple of the element width

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 3b91717..86ae64f 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -356,7 +356,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
-- 
2.43.0


From a2dda6dab94625a761d7f6d005b8c37f17037425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:16 +0000
Subject: [PATCH 51/96] fix: a moved-from ArbitraryArray keeps its length
 without its storage

---
 include/bss-util/DynArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 86ae64f..1eabaf6 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -351,7 +351,7 @@ namespace bss {
 
   public:
     inline ArbitraryArray(const ArbitraryArray& copy) : BASE(copy._capacity), _length(copy._length), _element(copy._element) { memcpy(_array, copy._array, _length*_element); }
-    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) {}
+    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) { mov._length = 0; }
     inline ArbitraryArray(CT size = 0, CT element = 1) : BASE(size*element), _length(0), _element(element) {}
     template<typename T>
     inline CT Add(const T& item)
@@ -442,6 +442,7 @@ namespace bss {
       BASE::operator=(std::move(mov)); 
       _length = mov._length;
       _element = mov._element; 
+      mov._length = 0;
       return *this; 
     }
 
-- 
2.43.0


From c0662cd7f478222ea4069c8e34340917ed09a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 52/96] fix: assigning an ArbitraryArray to itself destroys its
 contents

---
 include/bss-util/DynArray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 1eabaf6..89b9a94 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -431,6 +431,8 @@ namespace bss {
     inline void* operator[](CT index) { return Get(index); }
     inline ArbitraryArray& operator=(const ArbitraryArray& copy) 
     { 
+      if(this == &copy)
+        return *this;
       BASE::_setCapacityDiscard(copy._capacity);
       memcpy(_array, copy._array, _capacity);
       _length = copy._length; 
-- 
2.43.0


From f01956320985eb719658df9021713e45129e2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:45 +0000
Subject: [PATCH 53/96] fix: BitStream::Flush leaves the partial byte pending,
 so it is written again on the next flush or write

---
 include/bss-util/BitStream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 721b333..9bc6b43 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -78,7 +78,13 @@ namespace bss {
     }
     template<typename T>
     void Read(T& dest) { Read(&dest, std::conditional<std::is_same<T, bool>::value, std::integral_constant<int, 1>, std::integral_constant<int, (sizeof(T) << 3)>>::type::value); }
-    void Flush() { if(_woffset) _flush(_base, _buf); }
+    void Flush()
+    {
+      if(!_woffset) return;
+      _flush(_base, _buf);
+      _woffset = 0; // The partial byte is out now, so it must not be written again
+      _buf = 0;
+    }
 
     BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
     BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
-- 
2.43.0


From 5bb99c8e5d2d0669cf0ec54711e3469ba8e3e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:45 +0000
Subject: [PATCH 54/96] fix: assigning a BitStream drops the bits buffered in
 it

---
 include/bss-util/BitStream.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 9bc6b43..5e1a76b 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -86,8 +86,21 @@ namespace bss {
       _buf = 0;
     }
 
-    BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
-    BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
+    BitStream& operator=(const BitStream& copy)
+    {
+      if(this == &copy) return *this;
+      if(_base) Flush();
+      _base = copy._base; _roffset = copy._roffset; _woffset = copy._woffset; _buf = copy._buf;
+      return *this;
+    }
+    BitStream& operator=(BitStream&& mov)
+    {
+      if(this == &mov) return *this;
+      if(_base) Flush();
+      _base = mov._base; _roffset = mov._roffset; _woffset = mov._woffset; _buf = mov._buf;
+      mov._base = 0;
+      return *this;
+    }
     template<typename T>
     BitStream& operator<<(const T& v) { Write<T>(v); return *this; }
     template<typename T>
-- 
2.43.0


From 180fa68fb02d432dd8bb8edbd74a41555825df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:15 +0000
Subject: [PATCH 55/96] fix: CacheAlloc no longer drops the free list of a size
 another thread inserted during Upgrade

---
 include/bss-util/CacheAlloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index 4e89d70..5e4f945 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -40,7 +40,9 @@ namespace bss {
         if(!_cache.ExistsIter(i))
         {
           _cachelock.Upgrade();
-          i = _cache.Insert(sz, { 0, 0 });
+          i = _cache.Iterator(sz); // Upgrade can let another writer in first, which could have already inserted this size
+          if(!_cache.ExistsIter(i))
+            i = _cache.Insert(sz, { 0, 0 });
           _cachelock.Downgrade();
         }
         assert(_cache.ExistsIter(i));
-- 
2.43.0


From e6f1a8e949739aeec80c8bff1befed7351b48a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 56/96] fix: UTF conversions no longer read one unit past an
 explicit source length

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0


From eedeb99239f3f2e58717590c6034b58efc89b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 57/96] fix: converting a string without its terminator (or
 malformed text) no longer drops the last character

---
 include/bss-util/Str.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..6854baf 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -291,7 +291,10 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      if(r > 0 && !_internalPtr()[r - 1])
+        --r;
+
+      BASE::resize(r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if one was converted)
     }
     BSS_FORCEINLINE void _convStr2(const OTHER_C2* src, ptrdiff_t len)
     {
@@ -304,7 +307,10 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      if(r > 0 && !_internalPtr()[r - 1])
+        --r;
+
+      BASE::resize(r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if one was converted)
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-- 
2.43.0


From 388d0631053c7cde1e58f763aeabc022f1671504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 58/96] fix: right trim no longer writes past an empty string,
 keeps a blank or removes non-ASCII characters

---
 include/bss-util/Str.h      | 2 +-
 include/bss-util/bss_util.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index 6854baf..8a55d96 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -314,7 +314,7 @@ namespace bss {
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && inter[-1] >= 0 && inter[-1] < 33; --inter); *inter = 0; return str; }
 
   };
 #pragma warning(pop)
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 07893fb..1fc1a43 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,8 +209,8 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
-    *(++inter) = '\0';
+    for(; inter > str && inter[-1] >= 0 && inter[-1] < 33; --inter);
+    *inter = '\0';
     return str;
   }
 
-- 
2.43.0


From d41588469b5b3cf1e766796f4fa903957e4dcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 59/96] fix: strccount with a length stops at the terminator

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1fc1a43..3b74818 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && ((*string) != 0); ++i)
+    for(size_t i = 0; (i < length) && (string[i] != 0); ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From 983eb1aa588972838bc63cabec424c251f0e7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 60/96] fix: bssLog2 of a 64-bit value counts leading zeros in
 all 64 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 3b74818..fd70c60 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -870,7 +870,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
-- 
2.43.0


From 7036e84cca47ec69e7c31215fac64f91b37180f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 61/96] fix: BreadthFirstTree no longer stops when its ring of
 pending nodes is full

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..fcde088 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -305,7 +305,7 @@ namespace bss {
       return;
     }
 
-    n = (n / 2) + 1;
+    n = ((n + 1) / 2) + 1; // a full ring must not look like an empty one
     VARARRAY(T*, queue, n);
     queue[0] = root;
     size_t l = 1;
-- 
2.43.0


From 347ea2968db19fdc5f8653804e25a4a97a1e6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 62/96] fix: IntFastSqrt sets root bits in the width of the
 argument

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index fd70c60..61cdc05 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
-- 
2.43.0


From 7936a4d495dacd1b126b0d0bc79635e81a0c902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 63/96] fix: bssGetBit works above bit 31 of 64-bit words

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 61cdc05..7aab7f1 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -108,7 +108,7 @@ namespace bss {
   BSS_FORCEINLINE T bssSetBit(T word, T bit, bool v) noexcept { return (((word) & (~(bit))) | ((T)(-(typename std::make_signed<T>::type)v) & (bit))); }
 
   template<class T>
-  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (1 << (index % (sizeof(T) << 3)))) != 0; }
+  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (((T)1) << (index % (sizeof(T) << 3)))) != 0; }
 
   // Replaces one character with another in a string
   template<typename T>
-- 
2.43.0


From ad1121a07e58e5aac14748ae30fb314bc4d3c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 64/96] fix: bit range masks of 64-bit types are built in 64
 bits

---
 include/bss-util/defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/defines.h b/include/bss-util/defines.h
index cb8dd98..6a96a1a 100644
--- a/include/bss-util/defines.h
+++ b/include/bss-util/defines.h
@@ -46,7 +46,7 @@
 #define T_GETBIT(type, bit) ((type)(((type)1)<<(((type)bit)%(sizeof(type)<<3)))) // Gets a bitmask using its 0-based index.
 //#define T_GETBITRANGE(type, low, high) ((type)((((2<<((high)-(low)))-1)<<(low))|(((2<<((high)-(low)))-1)>>(-(low)))|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3)))))
 // Gets a bitmask for a range of bits. This range can be negative to start from the left end instead of the right.
-#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((2<<((high)-(low)))-1),low)|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
+#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((((type)2)<<((high)-(low)))-1),low)|(((((type)2)<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
 #define MAKEVERSIONINT(major,minor,revision) ((major) + ((minor)<<8) + ((revision)<<16)) // Packs version information into a 32-bit integer
 // This calculates the most significant bit in an 8-bit integer (CHAR) at compile time. It's really just a basterdized version of
 // i |= i >> 1; i |= i >> 2; i |= i >> 4; i -= i >> 1; so that it happens during compile time.
-- 
2.43.0


From 2b11133de50cd92aa9bc123dd657aa8308835151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 65/96] fix: bssVariance divides by the number of values, not
 by the new value

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 7aab7f1..ea14f50 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -693,7 +693,7 @@ namespace bss {
     static_assert(std::is_integral<CT_>::value, "CT_ must be integral");
     static_assert(std::is_floating_point<T>::value, "T must be float, double, or long double");
     T delta = nvalue - avg;
-    avg += delta / (T)nvalue;
+    avg += delta / (T)nextnum;
     curvariance += delta*(nvalue - avg);
   }
 
-- 
2.43.0


From 5cd62ec66cade845ef66b67944ef383547a7562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:03 +0000
Subject: [PATCH 66/96] fix: hash64_fnv1a keeps all 64 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index ea14f50..5fd6073 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1011,7 +1011,7 @@ namespace bss {
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL));
+    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL);
   }
 
   // template helper is_specialization_of, which can check if T is a specialization of any type that takes a variadic number of arguments (variant, tuple, etc.)
-- 
2.43.0


From 4312d00b0897a53e7cb851d74f711cafc0a37347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 67/96] fix: an animation interval ends its length after its
 start, not at its length

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f2a50f1..cf42dd9 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -242,7 +242,7 @@ namespace bss {
     }
 
   protected:
-    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.data, (dest->*FN)(v.value)); }
+    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.time + v.data, (dest->*FN)(v.value)); }
 
     void _clearQueue(T* dest)
     {
-- 
2.43.0


From d4bbf94b35a96e54f14e361d41903ea7ee3b4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 68/96] fix: animation intervals end in order of their ends
 instead of waiting for the last

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index cf42dd9..e4b7ae2 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -250,7 +250,7 @@ namespace bss {
         (dest->*REMOVE)(_queue.Pop().second);
     }
 
-    PriorityQueue<double, AUX, CompT<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
+    PriorityQueue<double, AUX, CompTInv<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
     size_t _cur;
   };
 
-- 
2.43.0


From cfa7146d2dc16a04b3ee6445288f87b9f84d68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 69/96] fix: an interval track built from frames knows where it
 ends

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index e4b7ae2..c7fdad1 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -355,7 +355,7 @@ namespace bss {
     AniDataInterval() : _end(0.0) {}
     AniDataInterval(AniDataInterval&& mov) : BASE(std::move(mov)), _end(mov._end) { mov._end = 0.0f; }
     AniDataInterval(const AniDataInterval& copy) : BASE(copy), _end(copy._end) {}
-    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) {}
+    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) { _recalcLength(); }
     BSS_FORCEINLINE double End() const { return _end; }
     BSS_FORCEINLINE Slice<const FRAME> Frames() const { return _frames.GetSlice(); }
     BSS_FORCEINLINE size_t Add(const FRAME& frame)
-- 
2.43.0


From ff038736154e1a48d2f63dcf419a9ea3487f54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 70/96] fix: copying an XML node copies its children and
 attributes

---
 bss-util/XML.cpp       | 13 ++++---------
 include/bss-util/XML.h |  2 +-
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..8867273 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,11 +55,12 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
   next = 0;
   prev = 0;
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
 }
 XMLNode::XMLNode(XMLNode&& mov) : _nodes(std::move(mov._nodes)), _nodehash(std::move(mov._nodehash)), _attributes(std::move(mov._attributes)),
   _attrhash(std::move(mov._attrhash)), _value(std::move(mov._value)), _name(std::move(mov._name))
@@ -75,13 +76,7 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
-  _attributes = copy._attributes;
-  _attrhash = copy._attrhash;
-  _value = copy._value;
-  _name = copy._name;
-  for(size_t i = 0; i < copy._nodes.Length(); ++i)
-    AddNode(*copy._nodes[i].get());
-  return *this;
+  return operator=(XMLNode(copy)); // Replaces what was here, and copes with copy being this node or one inside it
 }
 XMLNode& XMLNode::operator=(XMLNode&& mov)
 {
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..63e895d 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -107,7 +107,7 @@ namespace bss {
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes;
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From b70d41dc330659c765d3aacc39b378b17064cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 71/96] fix: XMLNode::RemoveAttribute removes an attribute
 instead of a child node

---
 bss-util/XML.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 8867273..63d59ae 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -119,10 +119,12 @@ bool XMLNode::RemoveNode(size_t index)
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+  for(size_t i = index; i < _attributes.Length(); ++i) // Everything after the removed attribute moved down by one
+    _attrhash.Set(_attributes[i].Name, i);
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-- 
2.43.0


From 48b40ed14a5fb53b2e2e1aa5ed65dbaf0fe41d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 72/96] fix: XMLNode::RemoveNode keeps the name lookup and the
 chain of same-named nodes intact

---
 bss-util/XML.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 63d59ae..bcccef8 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -98,22 +98,19 @@ bool XMLNode::RemoveNode(size_t index)
   if(index >= _nodes.Length()) 
     return false;
   khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
-  {
-    for(size_t i = 0; i < _nodes.Length(); ++i)
-    {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
-          _nodehash.SetValue(iter, i);
-      }
-    }
-  }
-  else if(_nodehash.ExistsIter(iter))
+  XMLNode* next = _nodes[index]->next;
+  XMLNode* prev = _nodes[index]->prev;
+  if(next)
+    next->prev = prev;
+  if(prev)
+    prev->next = next;
+  else if(!next && _nodehash.ExistsIter(iter))
     _nodehash.RemoveIter(iter);
 
   _nodes.Remove(index);
+  for(size_t i = 0; i < _nodes.Length(); ++i) // Everything after the removed node moved down by one, and the next node may now be the first
+    if(!_nodes[i]->prev && (i >= index || _nodes[i].get() == next))
+      _nodehash.Set(_nodes[i]->_name, i);
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
-- 
2.43.0


From e049994b34c3c20153371fd98c6c35ec3bbf7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 73/96] fix: the XML parser finds an ending that follows a
 partial one, like --->

---
 bss-util/XML.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index bcccef8..59f94b4 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -198,19 +198,21 @@ bool XMLNode::_match(std::istream& stream, Str& out, const char* pattern, bool r
     return false; 
   }
 
-  int end = ++i; // increment by 1 to skip past * marker
+  const char* ending = pattern + i + 1; // increment by 1 to skip past * marker
+  const size_t len = strlen(ending);
+  bool found = false;
   std::streamoff mid = stream.tellg();
   out.clear();
 
-  while(stream.peek() != -1 && stream && pattern[end] != 0)
+  while(stream.peek() != -1 && stream && !found)
   {
-    end = (stream.peek() == pattern[end]) ? (end + 1) : i;
     out += stream.get();
+    found = out.length() >= len && !out.compare(out.length() - len, len, ending);
   }
 
-  out.resize(i - end + out.length()); // trim off ending
-  if(!pattern[end])  // If we got through the entire pattern, the match was a success (even if the file ended).
+  if(found)  // If we got through the entire pattern, the match was a success (even if the file ended).
   { 
+    out.resize(out.length() - len); // trim off ending
     if(reset) 
       stream.seekg(mid);
     return true; 
-- 
2.43.0


From da0dfa8f8a1a369f3989e2e9fe12d7ea2850b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 74/96] fix: XML attributes are escaped when written and
 unescaped when read

---
 bss-util/XML.cpp       | 35 +++++++++++++++++++++--------------
 include/bss-util/XML.h |  1 +
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 59f94b4..e435f7c 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -293,6 +293,7 @@ void XMLNode::_parseAttribute(Str& buf)
           v.String += ss.get();
       }
 
+      _parseEntities(v.String);
       _evalValue(v);
     }
     else
@@ -319,6 +320,19 @@ void XMLNode::_parseEntity(std::istream& stream, Str& target)
   else target += stream.get();
 }
 
+void XMLNode::_parseEntities(Str& target)
+{
+  std::istringstream ss(target);
+  target.clear();
+  while(ss.peek() != -1 && ss)
+  {
+    if(ss.peek() == '&')
+      _parseEntity(ss, target);
+    else
+      target += ss.get();
+  }
+}
+
 void XMLNode::_evalValue(XMLValue& val)
 {
   char* c;
@@ -355,22 +369,15 @@ void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << (attribute ? "\'" : "&apos;"); break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 63e895d..a8fd24b 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -100,6 +100,7 @@ namespace bss {
 
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
+    static void _parseEntities(Str& target);
     static void _evalValue(XMLValue& val);
     static void _writeString(std::ostream& stream, const char* s, bool attribute);
 
-- 
2.43.0


From 82bc6bc1439c37ec2f72ebe006213398014e285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 75/96] fix: the XML parser sets the integer of a true value to
 1, as documented

---
 bss-util/XML.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index e435f7c..e1d2b0e 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -349,6 +349,9 @@ void XMLNode::_evalValue(XMLValue& val)
     else
       val.Integer = (int64_t)strtoull(val.String, &c, 10);
 
+    if(!STRICMP(val.String, "true"))
+      val.Integer = 1;
+
     val.Float = atof(val.String);
   }
 }
-- 
2.43.0


From c611cf5e5b49d343c8aa44d14d7dc5efc072d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 76/96] fix: StreamBufArray can put back bytes above 127

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d37b299..d4948e1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -93,7 +93,7 @@ namespace bss {
     inline virtual int_type underflow() override { return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }
     inline virtual int_type pbackfail(int_type ch) override
     {
-      if(_cur == _begin || (ch != traits_type::eof() && ch != _cur[-1]))
+      if(_cur == _begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(_cur[-1])))
         return traits_type::eof();
       return traits_type::to_int_type(*--_cur);
     }
-- 
2.43.0


From 97041e9c023c3bb424c45cfd3d94811b6bb8f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 77/96] fix: seeking outside of a memory stream fails instead
 of leaving its position outside of the array

---
 include/bss-util/stream.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d4948e1..397454c 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -114,17 +114,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        _cur += off;
+        off += _cur - _begin;
         break;
       case std::ios_base::end:
-        _cur = _end + off;
+        off += _end - _begin;
         break;
-      case std::ios_base::beg:
-        _cur = _begin + off;
+      default:
         break;
       }
 
-      return _cur - _begin;
+      if(off < 0 || off > _end - _begin)
+        return pos_type(off_type(-1));
+      _cur = _begin + off;
+      return pos_type(off);
     }
 
     const char* _begin;
@@ -155,17 +157,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        setg(eback(), gptr() + off, egptr());
+        off += gptr() - eback();
         break;
       case std::ios_base::end:
-        setg(eback(), egptr() + off, egptr());
+        off += egptr() - eback();
         break;
-      case std::ios_base::beg:
-        setg(eback(), eback() + off, egptr());
+      default:
         break;
       }
 
-      return gptr() - eback();
+      if(off < 0 || off > egptr() - eback())
+        return pos_type(off_type(-1));
+      setg(eback(), eback() + off, egptr());
+      return pos_type(off);
     }
     inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
-- 
2.43.0


From 9b7e268e0d5003263505758bf555f79dceb76e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 78/96] fix: StreamBufDynArray keeps the length of its array
 and both of its positions when it writes or grows

---
 include/bss-util/stream.h | 60 ++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 397454c..404d05e 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -143,12 +143,11 @@ namespace bss {
     inline StreamBufDynArray& operator =(const StreamBufDynArray& right) = delete;
 
   public:
-    StreamBufDynArray(StreamBufDynArray&& mov) : std::streambuf(std::move(mov)), _ref(mov._ref){}
-    StreamBufDynArray(D& ref, CType begin = 0) : _ref(ref)
+    StreamBufDynArray(StreamBufDynArray&& mov) : std::streambuf(std::move(mov)), _ref(mov._ref), _put(mov._put) {}
+    StreamBufDynArray(D& ref, CType begin = 0) : _ref(ref), _put(ref.Length() * sizeof(T))
     {
       setg(reinterpret_cast<char*>(_ref.begin() + begin), reinterpret_cast<char*>(_ref.begin() + begin), reinterpret_cast<char*>(_ref.end()));
-      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
-    }
+    } // There is no put area, so that every write goes through overflow() or xsputn() and updates the array
 
   protected:
     inline virtual pos_type seekpos(pos_type sp_, std::ios_base::openmode which_) override { return seekoff(off_type(sp_), std::ios_base::beg, which_); }
@@ -183,51 +182,36 @@ namespace bss {
       return r;
     }
 
-    void _fixlength()
-    {
-      _ref._length = (pptr() - eback()) / sizeof(T); // Only set length to the number of fully written indexes
-      setg(eback(), gptr(), reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
-    }
-    void _expand(CType sz)
+    void _append(const char* s, std::streamsize n)
     {
+      ptrdiff_t begin = eback() - reinterpret_cast<char*>(_ref.begin());
       ptrdiff_t goff = gptr() - eback();
-      _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), (sz / sizeof(T)) + _ref._length + 1));
-      setg(reinterpret_cast<char*>(_ref.begin()), reinterpret_cast<char*>(_ref.begin() + goff), reinterpret_cast<char*>(_ref.end()));
-      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
+      CType need = static_cast<CType>((_put + n + sizeof(T) - 1) / sizeof(T));
+      if(need > _ref.Capacity())
+        _ref.SetCapacity(std::max<CType>(fbnext(_ref.Capacity()), need));
+      if(n > 0)
+        MEMCPY(reinterpret_cast<char*>(_ref.begin()) + _put, n, s, n);
+      _put += n;
+      _ref._length = static_cast<CType>(_put / sizeof(T)); // Only set length to the number of fully written indexes
+      char* start = reinterpret_cast<char*>(_ref.begin()) + begin;
+      setg(start, start + goff, reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
     }
     inline virtual int_type overflow(int_type ch) override
     {
-      if(ch != traits_type::eof())
-      {
-        if(pptr() == epptr())
-          _expand(0);
-        assert(pptr() < epptr());
-        *pptr() = ch;
-        pbump(1);
-        _fixlength();
-        return ch;
-      }
-      return traits_type::eof();
+      if(ch == traits_type::eof())
+        return traits_type::eof();
+      char c = traits_type::to_char_type(ch);
+      _append(&c, 1);
+      return ch;
     }
     inline virtual std::streamsize xsputn(const char* s, std::streamsize n) override
     {
-      if(pptr() == epptr())
-        _expand(n);
-      std::streamsize r = epptr() - pptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(pptr(), r, s, r);
-      pbump(r);
-      _fixlength();
-      n -= r;
-      s += r;
-      if(n)
-        return xsputn(s, n);
-      return r;
+      _append(s, n);
+      return n;
     }
 
     D& _ref;
+    size_t _put; // Position of the next byte to write
   };
   
   // Generic read/write streambuffer that performs an operation on the input and output.
-- 
2.43.0


From 83bc1c1309a33eff9ba1b1308858d0e139847d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 79/96] fix: StreamBufFunction transfers and counts everything
 when a request spans several buffers

---
 include/bss-util/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 404d05e..71862da 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -261,6 +261,8 @@ namespace bss {
       if(r > 0)
         MEMCPY(s, n, gptr(), r);
       setg(eback(), gptr() + r, egptr());
+      if(r > 0 && r < n)
+        return r + xsgetn(s + r, n - r);
       return r;
     }
     inline virtual int_type overflow(int_type ch) override
@@ -291,7 +293,7 @@ namespace bss {
       n -= r;
       s += r;
       if(n)
-        return xsputn(s, n);
+        return r + xsputn(s, n);
       return r;
     }
     virtual void _onwrite() = 0; // should read input from _in when appropriate.
-- 
2.43.0


From 15519bc58594e7df5cdc0251750b2d30a183b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 80/96] fix: Logger::SetLevel grows its levels when it has to
 instead of cutting them off

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 4b7e255..a8fb634 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -103,7 +103,7 @@ void Logger::SetNullFormat(const char* format)
 
 void Logger::SetLevel(uint8_t level, const char* str)
 {
-  if(_levels.Capacity() >= level)
+  if(_levels.Capacity() <= level)
     _levels.SetCapacity(level + 1);
   _levels[level] = str;
 }
-- 
2.43.0


From b927f6270e330f54571374e06775d273af37b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 81/96] fix: assigning a Logger lets go of its old targets and
 takes over everything

---
 bss-util/Logger.cpp       | 19 +++++++++++++++++--
 include/bss-util/Logger.h |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index a8fb634..1af0caa 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -44,11 +44,17 @@ Logger::Logger(const wchar_t* logfile, std::ostream* log) : _levels(6), _split(n
 }
 #endif
 Logger::~Logger()
+{
+  _release();
+}
+void Logger::_release()
 {
   ClearTargets();
-  for(size_t i = 0; i < _backup.size(); ++i) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
+  for(size_t i = _backup.size(); i-- > 0;) //restore stream buffer backups, latest first, so we don't blow up someone else's stream when destroying ourselves
     _backup[i].first.rdbuf(_backup[i].second);
+  _backup.clear();
   if(_split != 0) delete _split;
+  _split = 0;
 }
 void Logger::Assimilate(std::ostream& stream)
 {
@@ -141,9 +147,18 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 }
 Logger& Logger::operator=(Logger&& right)
 {
+  if(this == &right)
+    return *this;
+  _release();
   _tz = GetTimeZoneMinutes();
   _files = std::move(right._files);
-  _backup = std::move(right._backup);
+  for(auto& b : right._backup) // references can't be assigned
+    _backup.push_back(b);
+  right._backup.clear();
+  _levels = std::move(right._levels);
+  _maxlevel = right._maxlevel;
+  _format = right._format;
+  _nullformat = right._nullformat;
   _split = right._split;
   right._split = 0;
   _stream.rdbuf(_split);
diff --git a/include/bss-util/Logger.h b/include/bss-util/Logger.h
index b9989a4..2856ab5 100644
--- a/include/bss-util/Logger.h
+++ b/include/bss-util/Logger.h
@@ -102,6 +102,7 @@ namespace bss {
     static void _header(std::ostream& o, int n, const char* source, const char* file, size_t line, const char* level, long tz);
     static bool _writeDateTime(long timezone, std::ostream& log, bool timeonly);
     void _levelDefaults();
+    void _release();
 
     Array<const char*, uint8_t> _levels;
     int8_t _maxlevel;
-- 
2.43.0


From c5aef6d4cdfffc0de4318aa075d45de98e89a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 82/96] fix: a log entry without source does not make the log
 fail when there is no format for null sources

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 1af0caa..1ffaa22 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -199,7 +199,7 @@ void Logger::_header(std::ostream& o, int n, const char* source, const char* fil
 {
   switch(n)
   {
-  case 0: o << source; break;
+  case 0: if(source) o << source; break;
   case 1: o << file; break;
   case 2: o << line; break;
   case 3: o << level; break;
-- 
2.43.0


From fdb0804560851a3eb0c11664a31f01ac4671462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 83/96] fix: GetTimeZoneMinutes gives the offset of the local
 time zone, in minutes

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index bf41998..4daf068 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -173,9 +173,9 @@ long GetTimeZoneMinutes()
   time_t rawtime;
   TIME64(&rawtime);
   tm stm;
-  if(GMTIMEFUNC(&rawtime, &stm) != 0)
+  if(localtime_r(&rawtime, &stm) == 0)
     return 0;
-  return stm.tm_gmtoff;
+  return stm.tm_gmtoff / 60;
 #endif
 }
 
-- 
2.43.0


From 2d23260c2e55fb220a4ee4e7fe572c1ab568ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 84/96] fix: the date of a log entry is that of its time zone

---
 bss-util/Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 1ffaa22..b543185 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -122,14 +122,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 {
   time_t rawtime;
   TIME64(&rawtime);
+  rawtime += timez * 60; // so that the date is that of the time zone, too
   tm stm;
   tm* ptm = &stm;
   if(GMTIMEFUNC(&rawtime, ptm) != 0)
     return false;
 
-  long m = ptm->tm_hour * 60 + ptm->tm_min + 1440 + timez; //+1440 ensures this is never negative because % does not properly respond to negative numbers.
-  long h = ((m / 60) % 24);
-  m %= 60;
+  long h = ptm->tm_hour;
+  long m = ptm->tm_min;
 
   char logchar = log.fill();
   std::streamsize logwidth = log.width();
-- 
2.43.0


From 64c949bbe29244e2c4fb8c2cd4a7e7c6984b8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 85/96] fix: GenericBSpline adds up all four weighted points

---
 include/bss-util/vector.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 8e9bf5c..2e7900c 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1200,11 +1200,7 @@ namespace bss {
     float a[4] = { t*t*t, t*t, t, 1 };
     sseVec r = MatrixMultiply1x4<float>(a, m);
     r *= sseVec(p);
-    sseVec r2 = r;
-    sseVec::Shuffle<0xB1>(r2);
-    r += r2;
-    sseVec::Shuffle<0x1B>(r2);
-    return BSS_SSE_SS_F32(r + r2);
+    return r.Sum();
   }
 }
 
-- 
2.43.0


From 743749a1da02f2a20e91ad176d3d68f825f1671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 86/96] fix: the matrix FromQuaternion makes in four dimensions
 is the rotation of the quaternion

---
 include/bss-util/vector.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 2e7900c..bf2ec8e 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -560,12 +560,11 @@ namespace bss {
     const sseVec n100(-1, 1, 1, 0);
     const sseVec n001(1, 1, -1, 0);
 
-    (y*yxw + z*zwx*n010).Set(out[0]);
-    (x*yxw + z*wzy*n001).Set(out[1]);
-    (x*zwx + y*wzy*n100).Set(out[2]);
+    ((y*yxw + z*zwx*n010)*sseVec(-2, 2, 2, 0) + sseVec(1, 0, 0, 0)).Set(out[0]);
+    ((x*yxw + z*wzy*n001)*sseVec(2, -2, -2, 0) + sseVec(0, 1, 0, 0)).Set(out[1]);
+    ((x*zwx + y*wzy*n100)*sseVec(2, 2, -2, 0) + sseVec(0, 0, 1, 0)).Set(out[2]);
     sseVec::ZeroVector().Set(out[3]);
     out[3][3] = 1;
-    out[1][2] = -out[1][2];
 
     /*
     y y + z z
-- 
2.43.0


From 077cbaa977413613eb1f6086bd8390c20344bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 87/96] fix: a fixed-point number keeps its value when
 converted to another number of decimal bits

---
 include/bss-util/FixedPt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..3c7a8a9 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, D - B>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, D - B>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
-- 
2.43.0


From 1b77764ff747838987ae8d3d8d9b13e00ae6cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 88/96] fix: LinePointDistance gives the distance of the point

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 655b9cc..24242ce 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -284,7 +284,7 @@ namespace bss {
     T tx = X2 - X1;
     T ty = Y2 - Y1;
     T det = (tx*(Y1 - pY)) - ((X1 - pX)*ty);
-    return (det*det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
+    return ((det < 0) ? -det : det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
   }
   template<typename T>
   inline T LineSegmentPointDistanceSqr(T X1, T Y1, T X2, T Y2, T pX, T pY)
-- 
2.43.0


From dd85bae68472918798330c9bb370b6f613050dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 89/96] fix: LineSegmentPointDistance gives the distance
 instead of its square

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 24242ce..02a626d 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -309,7 +309,7 @@ namespace bss {
   template<typename T>
   BSS_FORCEINLINE T LineSegmentPointDistance(T X1, T Y1, T X2, T Y2, T pX, T pY)
   {
-    return LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY);
+    return bss::FastSqrt<T>(LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY));
   }
   template<typename T>
   inline bool LineSegmentLineSegmentIntersect(T x1, T y1, T x2, T y2, T X1, T Y1, T X2, T Y2, Vector<T, 2>& retpoint)
-- 
2.43.0


From b4b38d3694e4d6b3a730226dfcac2aeae13fa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 90/96] fix: intersecting lines and line segments gives the
 point where they meet

---
 include/bss-util/Collision.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 02a626d..7cbe0ba 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -320,10 +320,10 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
-    T u = r.Cross(q) / rCrossS;
+    T t = (q -= p).Cross(s) / rCrossS;
+    T u = q.Cross(r) / rCrossS;
     if(0 <= u && u <= 1 && 0 <= t && t <= 1)
     {
       retpoint = (p += (r *= t));
@@ -340,9 +340,9 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
+    T t = (q -= p).Cross(s) / rCrossS;
     retpoint = (p += (r *= t));
     return true;
   }
-- 
2.43.0


From 6338c5ad843224bd00d53a3689756dbcfa7cd0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 91/96] fix: the points a Circle gives are where they are
 instead of relative to its center

---
 include/bss-util/Collision.h |  8 +++++++-
 include/bss-util/Geometry.h  | 21 +++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 7cbe0ba..779b709 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -64,7 +64,13 @@ namespace bss {
   template<class T>
   BSS_FORCEINLINE int CircleCircleIntersect(T X1, T Y1, T R1, T X2, T Y2, T R2, Vector<T, 2>(&out)[2])
   {
-    return CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    int n = CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    for(int i = 0; i < n; ++i)
+    {
+      out[i].x += X1;
+      out[i].y += Y1;
+    }
+    return n;
   }
   template<class T>
   inline bool RadiusContainsPoint(T r, T X, T Y)
diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 6b28f9e..2dfdcfa 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -62,17 +62,17 @@ namespace bss {
     BSS_FORCEINLINE bool ContainsCircle(const NSphere<T, 2>& s) const { return ContainsCircle(s.x, s.y, s.r); }
     BSS_FORCEINLINE bool ContainsCircle(const Vector<T, 2>& C, T R) const { return ContainsCircle(C.x, C.y, R); }
     BSS_FORCEINLINE bool ContainsCircle(T X, T Y, T R) const { if(r <= R) return false; return RadiusContainsPoint(r - R, X - x, Y - y); }
-    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { RadiusNearestPoint(r, p.x - x, p.y - y, outX, outY); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
-    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
+    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { CircleNearestPoint(x, y, r, p.x, p.y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
+    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
     BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
+    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _offset(LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _offset(RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _offset(LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return RectCircleCollide<T>(left, top, right, bottom, x, y, r); }
     BSS_FORCEINLINE bool EllipseCollide(T X, T Y, T A, T B) const { return EllipseCircleCollide(X, Y, A, B, x, y, r); }
 
@@ -96,6 +96,15 @@ namespace bss {
       };
       T v[3];
     };
+
+  protected:
+    // Moves n points that are relative to the center of this circle to where they are
+    inline int _offset(int n, Vector<T, 2>(&out)[2]) const
+    {
+      for(int i = 0; i < n; ++i)
+        out[i] += c;
+      return n;
+    }
   };
 
   // Traditional 3 dimensional sphere
-- 
2.43.0


From 6def998662f83f5dc61f72844ebe3f88fbb153b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 92/96] fix: a Circle collides with a circle at the vertical
 position of its center

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 2dfdcfa..f2026d5 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -66,7 +66,7 @@ namespace bss {
     BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
     BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
-    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
+    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-- 
2.43.0


From ae694a3d66d20102a98da268957e216adad42d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 93/96] fix: RectLineCollide finds horizontal lines, and
 vertical lines that end below the rectangle

---
 include/bss-util/Collision.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 779b709..5e771f2 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -410,7 +410,11 @@ namespace bss {
     T m = X2 - X1;
     if(m == (T)0) //this is a special case
     {
-      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 < bottom));
+      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom));
+    }
+    if(Y1 == Y2) // horizontal lines have no extent to compare either
+    {
+      return !(Y1 < top || Y1 > bottom || (X1 < left && X2 < left) || (X1 > right && X2 > right));
     }
     m = (Y2 - Y1) / m; //this is a precaution to prevent divide by zero
                        //T m = (Y2-Y1) / (X2-X1);
-- 
2.43.0


From dad2ae05b52472f16646683f0c02be7c366fd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 94/96] fix: ConvexPolygonContainsPoint compares the sides of
 all edges

---
 include/bss-util/Collision.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 5e771f2..0cbde6a 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -624,12 +624,13 @@ namespace bss {
     assert(PolygonIsConvex<T>(verts, num));
 
     //(y - y0)*(x1 - x0) - (x - x0)*(y1 - y0) where x,y is the point being tested and 0 and 1 are vertices on the polygon, returns negative if on the right, 0 if its on the line, and positive if its on the left
-    T last = ((point.y - verts[0].y)*(verts[num - 1].x - verts[0].x)) - ((point.x - verts[0].x)*(verts[num - 1].y - verts[0].y));
+    T last = ((point.y - verts[num - 1].y)*(verts[0].x - verts[num - 1].x)) - ((point.x - verts[num - 1].x)*(verts[0].y - verts[num - 1].y));
     T cur;
     for(size_t i = 1; i< num; ++i)
     {
       cur = ((point.y - verts[i - 1].y)*(verts[i].x - verts[i - 1].x)) - ((point.x - verts[i - 1].x)*(verts[i].y - verts[i - 1].y));
       if(cur<0 && last>0 || cur>0 && last<0) return false;//This is written so that being on the line counts as an intersection.
+      if(cur != 0) last = cur;
     }
 
     return true;
-- 
2.43.0


From 9d2e1d84171f71fb2a9f8a36fb532a37f0b9cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 95/96] fix: PolygonCentroid starts at zero

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 0cbde6a..63d13ac 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -651,7 +651,7 @@ namespace bss {
   template<class T>
   inline Vector<T, 2> PolygonCentroid(const Vector<T, 2>* verts, size_t num)
   {
-    Vector<T, 2> c;
+    Vector<T, 2> c((T)0, (T)0);
 
     for(size_t i = 0, j = num - 1; i<num; j = i++) //for loop trick for iterating each edge taken from pnpoly
     {
-- 
2.43.0


From 04b724f611273539c88b403082aabf8fc2bf936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 96/96] fix: assigning a line of another type returns the line

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index f2026d5..42eed14 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -167,7 +167,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -199,7 +199,7 @@ namespace bss {
     BSS_FORCEINLINE LineN Rotate(T r, T x, T y) const { return LineN(p1.Rotate(r, x, y), p2.Rotate(r, x, y)); }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -235,7 +235,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
-- 
2.43.0

