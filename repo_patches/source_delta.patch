From 9beb4c10fb727d252a91cc07f52a061de6569b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 001/149] fix: Array::eraseQuick(pos, count) keeps items when
 the erased range is near the end

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..97b50fe 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -487,9 +487,11 @@ public:
     PLY_NO_INLINE void eraseQuick(u32 pos, u32 count) {
         PLY_ASSERT(pos + count <= this->numItems_);
         subst::destructArray(this->items + pos, count);
+        // If fewer than count items follow the erased ones, only those items need to be moved:
+        u32 numToMove = min(count, this->numItems_ - (pos + count));
         memmove(static_cast<void*>(this->items + pos),
-                static_cast<const void*>(this->items + this->numItems_ - count),
-                count * sizeof(T)); // Underlying type is relocatable
+                static_cast<const void*>(this->items + this->numItems_ - numToMove),
+                numToMove * sizeof(T)); // Underlying type is relocatable
         this->numItems_ -= count;
     }
     /*!
-- 
2.43.0


From daf9e7013e62b285c74803cdeae099bc42c30c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 002/149] fix: assigning an Array to itself keeps its items

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 97b50fe..5dbe67b 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -139,6 +139,8 @@ public:
         arr = other;
     */
     PLY_INLINE void operator=(const Array& other) {
+        if (this == &other)
+            return;
         ArrayView<T> arrayToFree = {this->items, this->numItems_};
         new (this) Array{other};
         subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-- 
2.43.0


From f443cccfeef8f68a1eb182a78ae9d6975db5a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 003/149] fix: FixedArray's initializer list constructor no
 longer constructs each item twice

---
 repos/plywood/src/runtime/ply-runtime/container/FixedArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
index fb71ad0..6d42733 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
@@ -36,7 +36,8 @@ struct FixedArray {
 
     PLY_INLINE FixedArray(InitList<T> args) {
         PLY_ASSERT(Size == args.size());
-        subst::constructArrayFrom(this->items, args.begin(), Size);
+        // The items were already default constructed:
+        subst::copyArray(this->items, args.begin(), Size);
     }
 
     template <typename... Args>
-- 
2.43.0


From 8301ffa18d46b20c3140eb9035f4c26bcbabade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 004/149] fix: HashMap::erase handles items that are 255 or
 more cells apart in the same chain

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index 2fa0408..4919a45 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -299,10 +299,11 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             break;
         }
         u32 nextIdx = idx + *curLink;
-        CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
+        CellGroup* nextGroup = (CellGroup*) PLY_PTR_OFFSET(
+            m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
-            if (nextIdx - prevIdx < 256) {
+            if (nextIdx - prevIdx < EmptySlot) {
                 // Just redirect the previous link
                 cb->destruct(PLY_PTR_OFFSET(curGroup + 1, cb->itemSize * (idx & 3)));
                 *curLink = EmptySlot;
-- 
2.43.0


From a6ceae6cb406d187c47299e62e2da362b8f482ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 005/149] fix: BTree inserts go after every existing item with
 an equal key, not only those in the same node

---
 .../src/runtime/ply-runtime/container/BTree.h | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BTree.h b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
index 13012f0..580a26e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BTree.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
@@ -69,6 +69,24 @@ private:
             return links[lo].child;
         }
 
+        // Like getLastChildLessThan, but also accepts children that begin with the given
+        // index. Used when inserting, so that new items go after existing ones that compare equal.
+        Node* getLastChildLessOrEqual(const Index& index) {
+            PLY_ASSERT(!isLeaf);
+            PLY_ASSERT(size > 0);
+            Link* links = getLinks();
+            u32 lo = 0;
+            u32 hi = size - 1;
+            while (lo < hi) {
+                u32 mid = (lo + hi + 1) / 2;
+                if (!Traits::less(index, links[mid].index))
+                    lo = mid;
+                else
+                    hi = mid - 1;
+            }
+            return links[lo].child;
+        }
+
         u32 findLink(Node* child) {
             PLY_ASSERT(!isLeaf);
             u32 s = size;
@@ -611,7 +629,7 @@ public:
             m_root = Node::createLeaf();
         Node* node = m_root;
         while (!node->isLeaf) {
-            node = node->getLastChildLessThan(index);
+            node = node->getLastChildLessOrEqual(index);
         }
         u32 pos = node->findInsertPos(index);
         if (node->size >= Traits::NodeCapacity) {
-- 
2.43.0


From bd1f1690bf8179cba34875b9a1302b5496e2bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 006/149] fix: Sequence::truncate destructs the items it
 removes

---
 .../src/runtime/ply-runtime/container/Sequence.cpp       | 9 ++++++++-
 .../plywood/src/runtime/ply-runtime/container/Sequence.h | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
index 8781daf..a5f276f 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
@@ -49,7 +49,14 @@ PLY_NO_INLINE void popTail(BlockList::Footer** tail, u32 numBytes, void (*destru
     }
 }
 
-PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to) {
+PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView)) {
+    // Destruct all the items that are about to be removed.
+    destructViewAs(StringView::fromRange(to.byte, to.block->unused()));
+    for (BlockList::Footer* block = to.block->nextBlock; block; block = block->nextBlock) {
+        destructViewAs(block->viewUsedBytes());
+    }
+
     if (to.byte == to.block->start() && to.block->prevBlock) {
         *tail = to.block->prevBlock;
     } else  {
diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 4695305..26939b2 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -14,7 +14,8 @@ PLY_DLL_ENTRY void destructSequence(Reference<BlockList::Footer>* headRef,
 PLY_DLL_ENTRY void beginWriteInternal(BlockList::Footer** tail, u32 numBytes);
 PLY_DLL_ENTRY void popTail(BlockList::Footer** tail, u32 numBytes,
                            void (*destructViewAs)(StringView));
-PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to);
+PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView));
 PLY_DLL_ENTRY u32 getTotalNumBytes(BlockList::Footer* head);
 PLY_DLL_ENTRY char* read(BlockList::WeakRef* weakRef, u32 itemSize);
 } // namespace details
@@ -267,7 +268,7 @@ public:
         details::popTail(&this->tailBlock, numItems * (u32) sizeof(T), subst::destructViewAs<T>);
     }
     PLY_INLINE void truncate(const WeakSequenceRef<T>& to) {
-        details::truncate(&this->tailBlock, to.impl);
+        details::truncate(&this->tailBlock, to.impl, subst::destructViewAs<T>);
     }
 
     /*!
-- 
2.43.0


From 543302ed2bc6a01de5d8b5577f66e9240797255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 007/149] fix: Sequence keeps its first item in the first block
 when items are larger than a block

---
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 26939b2..dbd52fa 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -126,7 +126,10 @@ public:
 
         Sequence<String> list;
     */
-    PLY_INLINE Sequence() : headBlock{BlockList::createBlock()}, tailBlock{headBlock} {
+    // The first block is always large enough to hold the first item. (See isEmpty() and head().)
+    PLY_INLINE Sequence()
+        : headBlock{BlockList::createBlock(max<u32>(BlockList::DefaultBlockSize, sizeof(T)))},
+          tailBlock{headBlock} {
     }
 
     /*!
-- 
2.43.0


From 9c030ca79c2c330409738d83c6e396eeb2057956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 008/149] fix: BlockList::WeakRef::normalized returns the start
 of the next block

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..d525f95 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -93,7 +93,7 @@ struct BlockList {
         }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
-                return {this->block->nextBlock, this->block->start()};
+                return {this->block->nextBlock, this->block->nextBlock->start()};
             }
             return *this;
         }
-- 
2.43.0


From 3887d97bec45477845f9b9cd50d6d457ab389472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 009/149] fix: BlockList::toString and iterateOverViews stop at
 the given end position

---
 .../plywood/src/runtime/ply-runtime/container/BlockList.cpp | 2 +-
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..2c8df34 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -114,7 +114,7 @@ PLY_NO_INLINE String BlockList::toString(Ref&& start, const WeakRef& end) {
     // Check for special case: When there is only one block and only one reference to the block,
     // we can truncate this block and return it as a String directly.
     if (!start.block->nextBlock && start.block->refCount == 1 && start.block->bytes == start.byte) {
-        u32 numBytes = start.block->numBytesUsed;
+        u32 numBytes = end.block ? start.block->offsetOf(end.byte) : start.block->numBytesUsed;
         char* bytes = (char*) PLY_HEAP.realloc(start.byte, numBytes);
         String result = String::adopt(bytes, numBytes);
         start.block.release();
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index d525f95..a165791 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -153,7 +153,11 @@ struct BlockList {
             return *this;
         }
         PLY_INLINE void operator++() {
-            this->curPos = this->curPos.block->weakRefToNext();
+            if (this->curPos.block == this->endPos.block) {
+                this->curPos = this->endPos;
+            } else {
+                this->curPos = this->curPos.block->weakRefToNext();
+            }
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
             return this->curPos != this->endPos;
-- 
2.43.0


From 9d4ea7c55ac9f3482967677b3148b3428d6dcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 010/149] fix: String::reversedUTF8 compiles

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index a42cd5c..cabdad8 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -285,7 +285,7 @@ PLY_INLINE String StringMixin<Derived>::reversedBytes() const {
 
 template <typename Derived>
 PLY_INLINE String StringMixin<Derived>::reversedUTF8() const {
-    return static_cast<const Derived*>(this)->view().reversedUTF();
+    return static_cast<const Derived*>(this)->view().reversedUTF8();
 }
 
 template <typename Derived>
-- 
2.43.0


From af6199fe78e870ea08cc280ca86f6bc1d7a9f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 011/149] fix: assigning a String or HybridString to itself
 keeps its contents

---
 .../plywood/src/runtime/ply-runtime/string/String.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index cabdad8..ec1e34e 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -110,8 +110,10 @@ struct String : StringMixin<String> {
     is reset to an empty string.
     */
     PLY_INLINE void operator=(const String& other) {
-        this->~String();
-        new (this) String{other.view()};
+        if (&other != this) {
+            this->~String();
+            new (this) String{other.view()};
+        }
     }
     PLY_INLINE void operator=(String&& other) {
         this->~String();
@@ -391,8 +393,10 @@ struct HybridString : StringMixin<HybridString> {
     Copy assignment operator.
     */
     PLY_INLINE void operator=(const HybridString& other) {
-        this->~HybridString();
-        new (this) HybridString(other);
+        if (&other != this) {
+            this->~HybridString();
+            new (this) HybridString(other);
+        }
     }
 
     /*!
-- 
2.43.0


From 63c38ab9961e652949234c823056e6b513d77d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 012/149] fix: move-assigning from an Owned held by the object
 being replaced, or from an Owned<Derived>

---
 .../src/runtime/ply-runtime/container/Owned.h  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index da71b30..bf01c0e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -65,15 +65,18 @@ public:
     }
     PLY_INLINE void operator=(Owned&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
+        // Note: other might be owned (directly or indirectly) by the object we're about to destroy.
+        T* oldPtr = this->ptr;
         this->ptr = other.release();
+        subst::destroyByMember(oldPtr);
     }
     template <typename Derived,
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
     PLY_INLINE void operator=(Owned<Derived>&& other) {
-        PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
+        PLY_ASSERT(!this->ptr || this->ptr != other.get());
+        T* oldPtr = this->ptr;
         this->ptr = other.release();
+        subst::destroyByMember(oldPtr);
     }
     PLY_INLINE void operator=(T* ptr) {
         PLY_ASSERT(!this->ptr || this->ptr != ptr);
@@ -141,8 +144,13 @@ public:
     }
     PLY_INLINE void operator=(OptionallyOwned&& other) {
         PLY_ASSERT(!this->ptrAndOwnedFlag || this->ptrAndOwnedFlag != other.ptrAndOwnedFlag);
-        destruct(*this);
-        new (this) OptionallyOwned{std::move(other)};
+        // Note: other might be owned (directly or indirectly) by the object we're about to destroy.
+        uptr oldPtrAndOwnedFlag = this->ptrAndOwnedFlag;
+        this->ptrAndOwnedFlag = other.ptrAndOwnedFlag;
+        other.ptrAndOwnedFlag = 0;
+        if (oldPtrAndOwnedFlag & 1) {
+            subst::destroyByMember((T*) (oldPtrAndOwnedFlag & ~(uptr) 1));
+        }
     }
     template <typename Base, typename = std::enable_if_t<std::is_base_of<Base, T>::value>>
     PLY_INLINE operator OptionallyOwned<Base>&() {
-- 
2.43.0


From 384b246583556322575e70eed31e621ddcf766de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 013/149] fix: move-assigning from a Reference held by the
 object being released

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 754a89c..0786f94 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -113,10 +113,12 @@ public:
             oldPtr->decRef();
     }
     PLY_INLINE void operator=(Reference&& ref) {
-        if (this->ptr)
-            this->ptr->decRef();
+        // Note: ref might be a member of the object we're about to release.
+        T* oldPtr = this->ptr;
         this->ptr = ref.ptr;
         ref.ptr = nullptr;
+        if (oldPtr)
+            oldPtr->decRef();
     }
     PLY_INLINE explicit operator bool() const {
         return this->ptr != nullptr;
-- 
2.43.0


From c1cdec014ea6e8af470bae919e43092f02a1c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 014/149] fix: Functor destructs the callable it owns, also
 when it's replaced

---
 .../src/runtime/ply-runtime/container/Functor.h      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 6ce6846..cd5ca93 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -15,6 +15,7 @@ struct Functor<Return(Args...)> {
 private:
     struct BaseWrapper {
         Return (*thunk)(BaseWrapper* wrapper, Args... args) = nullptr;
+        void (*destroy)(BaseWrapper* wrapper) = nullptr;
     };
 
     template <typename Callable>
@@ -24,9 +25,12 @@ private:
         static PLY_NO_INLINE Return thunk(BaseWrapper* wrapper, Args... args) {
             return static_cast<Wrapper*>(wrapper)->callable(std::forward<Args>(args)...);
         }
+        static PLY_NO_INLINE void destroy(BaseWrapper* wrapper) {
+            delete static_cast<Wrapper*>(wrapper);
+        }
         template <typename I>
         PLY_INLINE Wrapper(I&& callable)
-            : BaseWrapper{&thunk}, callable{std::forward<I>(callable)} {
+            : BaseWrapper{&thunk, &destroy}, callable{std::forward<I>(callable)} {
         }
     };
 
@@ -44,12 +48,16 @@ public:
     }
     PLY_INLINE ~Functor() {
         if (this->wrapper) {
-            delete this->wrapper;
+            this->wrapper->destroy(this->wrapper);
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
+        BaseWrapper* oldWrapper = this->wrapper;
         this->wrapper = other.wrapper;
         other.wrapper = nullptr;
+        if (oldWrapper && oldWrapper != this->wrapper) {
+            oldWrapper->destroy(oldWrapper);
+        }
     }
     PLY_INLINE bool isValid() const {
         return this->wrapper != nullptr;
-- 
2.43.0


From 4d66d08a50a06bbe38843838156a866a8addc614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 015/149] fix: assigning a switch container to itself keeps its
 contents

---
 repos/plywood/src/runtime/ply-runtime/container/Switch.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Switch.h b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
index cc46da7..4fcc26e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Switch.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
@@ -105,8 +105,10 @@ struct SwitchWrapper {
         idToType[ply::ureg(id)].construct(&storage); \
     } \
     PLY_INLINE void operator=(const ctrName& other) { \
-        switchTo(other.id); \
-        idToType[ply::ureg(id)].copy(&storage, &other.storage); \
+        if (&other != this) { \
+            switchTo(other.id); \
+            idToType[ply::ureg(id)].copy(&storage, &other.storage); \
+        } \
     } \
     PLY_INLINE void operator=(ctrName&& other) { \
         switchTo(other.id); \
-- 
2.43.0


From 121ee091cf976f0880e02ba72bf780e15f83ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 016/149] fix: EnumIndexedArray's initializer list constructor
 compiles

---
 .../src/runtime/ply-runtime/container/EnumIndexedArray.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/EnumIndexedArray.h b/repos/plywood/src/runtime/ply-runtime/container/EnumIndexedArray.h
index 0732c3d..6ebcd66 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/EnumIndexedArray.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/EnumIndexedArray.h
@@ -26,7 +26,7 @@ public:
     PLY_INLINE EnumIndexedArray(InitList<T> items) {
         PLY_ASSERT(items.size() == (u32) EnumType::Count);
         for (u32 i = 0; i < (u32) EnumType::Count; i++) {
-            m_items[i] = items[i];
+            m_items[i] = items.begin()[i];
         }
     }
     PLY_INLINE u32 numItems() const {
-- 
2.43.0


From 74dc9056023fdb3f08ca98afcb4f831732669bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 017/149] fix: OptionallyOwned made from an empty Owned is
 empty

---
 repos/plywood/src/runtime/ply-runtime/container/Owned.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index bf01c0e..829be7d 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -126,7 +126,8 @@ public:
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
     PLY_INLINE OptionallyOwned(Owned<Derived>&& other) {
         PLY_ASSERT((((uptr) other.get()) & 1) == 0);
-        this->ptrAndOwnedFlag = (uptr) other.release() | 1;
+        this->ptrAndOwnedFlag = other.get() ? ((uptr) other.get() | 1) : 0;
+        other.release();
     }
     PLY_INLINE OptionallyOwned(OptionallyOwned&& other) : ptrAndOwnedFlag{other.ptrAndOwnedFlag} {
         other.ptrAndOwnedFlag = 0;
-- 
2.43.0


From 4a0f6c7da357920965cfd1cf45ae5698545b2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 018/149] fix: InStream::tryMakeBytesAvailable keeps unread
 bytes when a request straddles blocks

---
 .../ply-runtime/container/BlockList.cpp       |  11 +-
 .../runtime/ply-runtime/container/BlockList.h |  19 ++-
 .../src/runtime/ply-runtime/io/InStream.cpp   | 156 +++++++++---------
 3 files changed, 102 insertions(+), 84 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index 2c8df34..8c3a470 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -33,9 +33,14 @@ PLY_NO_INLINE BlockList::WeakRef BlockList::Footer::weakRefToNext() const {
     BlockList::WeakRef result;
     result.block = this->nextBlock;
     if (result.block) {
-        u32 fileDelta = safeDemote<u32>((s64) result.block->fileOffset - this->fileOffset);
-        PLY_ASSERT(fileDelta <= this->numBytesUsed);
-        result.byte = result.block->bytes + (this->numBytesUsed - fileDelta);
+        u64 endOffset = this->fileOffset + this->numBytesUsed;
+        // Skip blocks that are entirely overlapped by this one.
+        while (result.block->nextBlock &&
+               result.block->fileOffset + result.block->numBytesUsed < endOffset) {
+            result.block = result.block->nextBlock;
+        }
+        PLY_ASSERT(result.block->fileOffset <= endOffset);
+        result.byte = result.block->bytes + (endOffset - result.block->fileOffset);
         PLY_ASSERT(result.block->viewUsedBytes().contains(result.byte));
     }
     return result;
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index a165791..5dedb78 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -91,6 +91,9 @@ struct BlockList {
         PLY_INLINE bool operator!=(const WeakRef& other) const {
             return this->block != other.block || this->byte != other.byte;
         }
+        PLY_INLINE u64 getFileOffset() const {
+            return this->block->fileOffset + u64(this->byte - this->block->bytes);
+        }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
                 return {this->block->nextBlock, this->block->nextBlock->start()};
@@ -152,8 +155,14 @@ struct BlockList {
         PLY_INLINE RangeForIterator& end() {
             return *this;
         }
+        PLY_INLINE bool isLastBlock() const {
+            // Adjacent blocks might overlap, so compare file offsets instead of block pointers.
+            return this->endPos.block && this->curPos.block->fileOffset +
+                                                 this->curPos.block->numBytesUsed >=
+                                             this->endPos.getFileOffset();
+        }
         PLY_INLINE void operator++() {
-            if (this->curPos.block == this->endPos.block) {
+            if (this->isLastBlock()) {
                 this->curPos = this->endPos;
             } else {
                 this->curPos = this->curPos.block->weakRefToNext();
@@ -163,10 +172,10 @@ struct BlockList {
             return this->curPos != this->endPos;
         }
         PLY_INLINE StringView operator*() const {
-            return StringView::fromRange(this->curPos.byte,
-                                         (this->curPos.block == this->endPos.block)
-                                             ? this->endPos.byte
-                                             : this->curPos.block->unused());
+            if (this->isLastBlock())
+                return {this->curPos.byte,
+                        (u32) (this->endPos.getFileOffset() - this->curPos.getFileOffset())};
+            return StringView::fromRange(this->curPos.byte, this->curPos.block->unused());
         }
     };
 
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..c9a3bcb 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -65,96 +65,100 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         return 0;
     }
 
-    Reference<BlockList::Footer> overlayBlock;
-    u32 numBytesNeededToCompleteRequest = numRequestedBytes;
     for (;;) {
         // this->curByte points to the read position in the current block.
         // this->endByte points to the write position in the current block.
         PLY_ASSERT(this->block->viewUsedBytes().contains(this->curByte));
         PLY_ASSERT(this->endByte == this->block->unused());
 
-        u32 numUnreadBytesInCurrentBlock = safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesNeededToCompleteRequest <= numUnreadBytesInCurrentBlock)
-            break; // Current block has enough data to fulfill the remainder of the request.
-
-        if (this->block->nextBlock) {
-            // Another block follows this one in the list, and we already know, from the previous
-            // check, that this block doesn't contain enough unread data to fulfill the rest of the
-            // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
-                if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
+        u32 numUnreadBytes = safeDemote<u32>(this->block->unused() - this->curByte);
+        if (numUnreadBytes >= numRequestedBytes)
+            return numUnreadBytes; // Current block has enough data to fulfill the request.
+
+        if (!this->block->nextBlock) {
+            u32 unreadStorage = safeDemote<u32>(this->block->end() - this->curByte);
+            if (unreadStorage < numRequestedBytes) {
+                // Append a new block. If there are any unread bytes, the new block overlaps the
+                // end of the current one.
+                u32 newBlockSize = max(numRequestedBytes, this->getBlockSize());
+                if (numUnreadBytes == 0) {
+                    BlockList::appendBlockWithRecycle(this->block, newBlockSize);
+                } else {
+                    BlockList::Footer* newBlock = BlockList::appendBlock(this->block, newBlockSize);
+                    memcpy(newBlock->bytes, this->curByte, numUnreadBytes);
+                    newBlock->fileOffset -= numUnreadBytes;
+                    newBlock->numBytesUsed = numUnreadBytes;
+                    this->block = newBlock;
                 }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
-                }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+                this->curByte = this->block->bytes;
+                this->endByte = this->block->unused();
             }
+
+            // Read more data from the underlying pipe.
+            u32 bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
+            if (bytesRead == 0) {
+                this->status.eof = 1;
+                return numUnreadBytes;
+            }
+            this->block->numBytesUsed += bytesRead;
+            this->endByte = this->block->unused();
+        } else if (numUnreadBytes == 0) {
             // Advance to next block.
-            BlockList::Footer* nextBlock = this->block->nextBlock;
-            u32 offsetIntoNextBlock =
-                this->block->numBytesUsed -
-                safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
-            this->block = nextBlock;
-            PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
-            this->curByte = nextBlock->bytes + offsetIntoNextBlock;
-            this->endByte = nextBlock->bytes + nextBlock->numBytesUsed;
+            BlockList::WeakRef nextPos = this->block->weakRefToNext();
+            this->block = nextPos.block;
+            this->curByte = nextPos.byte;
+            this->endByte = this->block->unused();
         } else {
-            u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
-            if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
-                this->curByte = this->block->bytes;
-                this->endByte = this->block->bytes; // nothing written to this block yet
+            // The request straddles the current block and the blocks that follow it, which is
+            // possible after rewind(). Count the data that's already in those blocks.
+            u32 numContiguousBytes = numUnreadBytes;
+            BlockList::Footer* tail = this->block;
+            while (tail->nextBlock && numContiguousBytes < numRequestedBytes) {
+                BlockList::WeakRef nextPos = tail->weakRefToNext();
+                tail = nextPos.block;
+                numContiguousBytes += safeDemote<u32>(tail->unused() - nextPos.byte);
+            }
+            if (numContiguousBytes < numRequestedBytes) {
+                // Not enough. Read more data from the underlying pipe.
+                if (tail->viewUnusedBytes().numBytes == 0) {
+                    tail = BlockList::appendBlock(tail, this->getBlockSize());
+                }
+                u32 bytesRead = this->inPipe->readSome(tail->viewUnusedBytes());
+                if (bytesRead > 0) {
+                    tail->numBytesUsed += bytesRead;
+                    continue;
+                }
+                this->status.eof = 1;
+                if (numContiguousBytes == numUnreadBytes)
+                    return numUnreadBytes;
             }
-            // Current block has enough storage to fulfill the remainder of the request.
-            break;
-        }
-    }
 
-    // Current block has enough storage to fulfill the remainder of the request, but we still might
-    // need to fill it with data from the underlying pipe.
-    PLY_ASSERT(numBytesNeededToCompleteRequest <=
-               safeDemote<u32>(this->block->end() - this->curByte));
-    u32 numBytesAvailableToReadInBlock;
-    for (;;) {
-        numBytesAvailableToReadInBlock =
-            safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesAvailableToReadInBlock >= numBytesNeededToCompleteRequest)
-            break; // Current block has enough data to fulfill remainder of request.
-
-        PLY_ASSERT(!this->block->nextBlock); // We can only write to the end of the block list.
-        // Read more data from the underlying pipe.
-        u32 bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
-        if (bytesRead == 0) {
-            this->status.eof = 1;
-            break;
+            // Insert a block that overlaps the current block and the ones that follow it.
+            numContiguousBytes = min(numContiguousBytes, numRequestedBytes);
+            Reference<BlockList::Footer> overlayBlock =
+                BlockList::createOverlayBlock({this->block, const_cast<char*>(this->curByte)},
+                                              max(numContiguousBytes, this->getBlockSize()));
+            BlockList::WeakRef srcPos = {this->block, const_cast<char*>(this->curByte)};
+            for (;;) {
+                u32 numBytesToCopy =
+                    min(safeDemote<u32>(srcPos.block->unused() - srcPos.byte),
+                        numContiguousBytes - overlayBlock->numBytesUsed);
+                memcpy(overlayBlock->unused(), srcPos.byte, numBytesToCopy);
+                overlayBlock->numBytesUsed += numBytesToCopy;
+                if (overlayBlock->numBytesUsed >= numContiguousBytes)
+                    break;
+                srcPos = srcPos.block->weakRefToNext();
+            }
+            overlayBlock->prevBlock = this->block;
+            overlayBlock->nextBlock->prevBlock = overlayBlock;
+            this->block->nextBlock = overlayBlock;
+            this->block = std::move(overlayBlock);
+            this->curByte = this->block->bytes;
+            this->endByte = this->block->unused();
+            if (this->status.eof)
+                return numContiguousBytes;
         }
-        this->block->numBytesUsed += bytesRead;
-        this->endByte += bytesRead;
-        PLY_ASSERT(this->endByte == this->block->unused());
-    }
-
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
-    // the caller.
-    if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
     }
-
-    return numBytesToReturn;
 }
 
 PLY_NO_INLINE u64 InStream::getSeekPos() const {
-- 
2.43.0


From 4ac1fb9d0e3deb1580b176ca3254888a3ab8e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 019/149] fix: InStream::read and skip succeed on bytes
 buffered before end of file, and fill the rest with zeros

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.cpp | 6 ------
 repos/plywood/src/runtime/ply-runtime/io/InStream.h   | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index c9a3bcb..f38dcfc 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -187,9 +187,6 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             memset(dst.bytes, 0, dst.numBytes);
@@ -205,9 +202,6 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             return false;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..4016b8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -243,7 +243,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +259,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0


From 1a18abd88beb7d05823e5f8e1662598021b4b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 020/149] fix: define InStream's move assignment operator

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index f38dcfc..807478e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -24,6 +24,11 @@ PLY_NO_INLINE InStream::InStream(InStream&& other) : status{other.status} {
     other.status.eof = 1;
 }
 
+PLY_NO_INLINE void InStream::operator=(InStream&& other) {
+    this->~InStream();
+    new (this) InStream{std::move(other)};
+}
+
 PLY_NO_INLINE InStream::InStream(OptionallyOwned<InPipe>&& inPipe, u32 blockSizeExp)
     : status{Type::Pipe, blockSizeExp} {
     PLY_ASSERT(inPipe);
-- 
2.43.0


From 81f44cadf227987df71aa86299c70dd47da082aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 021/149] fix: UTF8::decodePoint reports stray continuation
 bytes and bytes above 0xf7 as invalid instead of truncated

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..3cff91b 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // Not a valid first byte
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From 10b52dbb38e3a0cf5b5e1c010c2597cf1377c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 022/149] fix: TextConverter keeps the bytes of a code point
 that arrives in three or more pieces

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..2be94f6 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -62,9 +62,12 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT(this->srcSmallBuf.numBytes < 4); // Sanity check
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
-            // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            // Otherwise, leave the appended input in srcSmallBuf and return from here:
+            if (!(flush && decoded.point >= 0)) {
+                this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                srcBuf->offsetHead(numCopiedFromSrc);
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
-- 
2.43.0


From 71342249d72109446a74e4fec2c272db5446b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 023/149] fix: TextConverter consumes an incomplete code unit
 at the end of its input

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2be94f6..39324d1 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -102,7 +102,8 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
         // Decode one point from the input.
         DecodeResult decoded = this->srcEncoding->decodePoint(*srcBuf);
         if (decoded.status == DecodeResult::Status::Truncated) {
-            if (!flush) {
+            PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
+            if (!flush || decoded.point < 0) {
                 // Not enough input units for a complete code point. Copy input to srcSmallBuf.
                 PLY_ASSERT(srcBuf->numBytes < 4); // Sanity check
                 memcpy(this->srcSmallBuf.bytes, srcBuf->bytes, srcBuf->numBytes);
@@ -110,10 +111,8 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
                 srcBuf->offsetHead(srcBuf->numBytes);
                 return wroteAnything;
             }
-            PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
-            if (decoded.point < 0)
-                return wroteAnything;
         }
+
         PLY_ASSERT(decoded.point >= 0);
 
         // Consume input bytes.
-- 
2.43.0


From 525a0f8976ee3791b41cf814c65fff9c30879e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 024/149] fix: TextFormat's exporter converts to Bytes as its
 importer converts from them

---
 repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
index c48091d..bf05f9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
@@ -268,7 +268,9 @@ PLY_NO_INLINE Owned<OutStream> TextFormat::createExporter(OptionallyOwned<OutStr
     OptionallyOwned<OutStream> exporter = std::move(outs);
 
     switch (this->encoding) {
-        case TextFormat::Encoding::Bytes: { // FIXME: Bytes needs to be converted
+        case TextFormat::Encoding::Bytes: {
+            exporter = Owned<OutStream>::create(Owned<OutPipe_TextConverter>::create(
+                std::move(exporter), TextEncoding::get<Enc_Bytes>(), TextEncoding::get<UTF8>()));
             break;
         }
 
-- 
2.43.0


From f8c74c842efbf53162030a1f2aec14b049d0f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 025/149] fix: TextFormat::autodetect rewinds the stream when
 the input holds no complete character

---
 repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
index bf05f9f..0bdb60d 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
@@ -127,11 +127,11 @@ PLY_NO_INLINE TextFormat guessFileEncoding(InStream* ins) {
     // Try UTF8 first:
     u32 numBytesRead =
         scanTextFile(&stats8, ins, TextEncoding::get<UTF8>(), TextFormat::NumBytesForAutodetect);
+    ins->rewind(start);
     if (numBytesRead == 0) {
         // Empty file
         return {TextFormat::Encoding::UTF8, TextFormat::NewLine::LF, false};
     }
-    ins->rewind(start);
     if (stats8.numInvalidPoints() == 0 && stats8.numControl == 0) {
         // No UTF-8 encoding errors, and no weird control characters/nulls. Pick UTF-8.
         return {TextFormat::Encoding::UTF8, stats8.getNewLineType(), false};
-- 
2.43.0


From 53878f9ccca8b01babf3ef9e3721dd888878af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 026/149] fix: InPipe_FD reports a failed read as end of input

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..5c30aa7 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -27,7 +27,6 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
     if (rc < 0)
         return 0;
     return rc;
-- 
2.43.0


From 7e0f978b84c75c4f36d7b043fbe315a32aff6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 027/149] fix: OutPipe_FD retries an interrupted write

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 5c30aa7..5d7a66b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -65,6 +65,8 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
     PLY_ASSERT(outPipe->fd >= 0);
     while (buf.numBytes > 0) {
         s32 sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        if (sent == -1 && errno == EINTR)
+            continue;
         if (sent <= 0)
             return false;
         PLY_ASSERT((u32) sent <= buf.numBytes);
-- 
2.43.0


From 320c8d6b54557f0fd4777a9ac5293e350ba69018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 028/149] fix: an OutStream whose pipe failed can be flushed
 and destroyed

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..b88ef0f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,9 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // After a failed write, no more bytes are made available and endByte is equal to curByte.
+    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize ||
+               (this->status.eof && this->endByte == this->curByte));
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
-- 
2.43.0


From 1feadcc8f0cdb92b9ac5850a8fc926555749f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 029/149] fix: printing the lowest s64 does not overflow

---
 repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fa6aa5c..8bfe2a5 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void printString(OutStream* outs, s64 value, u32 radix, bool capit
         printString(outs, (u64) value, radix, capitalize);
     } else {
         outs->writeByte('-');
-        printString(outs, (u64) -value, radix, capitalize);
+        printString(outs, 0 - (u64) value, radix, capitalize);
     }
 }
 
-- 
2.43.0


From 1b97e68a86a4110ba61d366424ee0998d93dde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 030/149] fix: parsing the lowest s64 does not overflow

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index b3bb437..e2783f1 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -123,7 +123,7 @@ PLY_NO_INLINE s64 fmt::TypeParser<s64>::parse(InStream* ins, Radix radix) {
 
     u64 unsignedComponent = fmt::TypeParser<u64>::parse(ins, radix);
     if (negate) {
-        s64 result = -(s64) unsignedComponent;
+        s64 result = (s64)(0 - unsignedComponent);
         if (result > 0) {
             ins->status.parseError = 1;
         }
-- 
2.43.0


From c12da9ac3632de191103e35a568a3af59355b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 031/149] fix: parsing a long fraction detects overflow of its
 denominator in every radix

---
 .../plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index e2783f1..8dc10b0 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -187,9 +187,8 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
             if (digit >= radix.base)
                 break;
             ins->advanceByte();
-            u64 denomWithNextDigit = denom * radix.base;
-            if (denomWithNextDigit < denom) {
-                // denominator overflowed
+            if (denom > Limits<u64>::Max / radix.base) {
+                // denominator would overflow
                 double ooDenom = 1.0 / denom;
                 value += significance * numer * ooDenom;
                 significance *= ooDenom;
@@ -197,7 +196,7 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
                 denom = radix.base;
             } else {
                 numer = numer * radix.base + digit;
-                denom = denomWithNextDigit;
+                denom *= radix.base;
             }
         }
         value += significance * numer / denom;
-- 
2.43.0


From b5df9f4717334befce2478fecd138b2b58bb9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 032/149] fix: zero with a large exponent parses as zero, not
 NaN

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 8dc10b0..a2aac28 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -216,7 +216,9 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
         }
         comp.anyDigits = false;
         readDoubleComponent(&comp, ins, radix);
-        value *= pow((double) radix.base, negateExp ? -comp.result : comp.result);
+        if (value != 0) {
+            value *= pow((double) radix.base, negateExp ? -comp.result : comp.result);
+        }
     }
 
     if (!comp.anyDigits) {
-- 
2.43.0


From 93de1b48944123d1304e04988d8603b9a003f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 033/149] fix: fmt::WithRadix and fmt::Hex accept
 floating-point values

---
 .../plywood/src/runtime/ply-runtime/io/impl/FormatString.h  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
index a621a4e..b59b205 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
@@ -31,7 +31,7 @@ struct WithRadix {
               typename std::enable_if_t<std::is_floating_point<SrcType>::value, int> = 0>
     inline WithRadix(SrcType v, u32 radix, bool capitalize = false) {
         this->double_ = v;
-        this->type = U64;
+        this->type = Double;
         this->capitalize = capitalize ? 1 : 0;
         this->radix = radix;
     }
@@ -43,7 +43,9 @@ struct WithRadix {
         this->capitalize = capitalize ? 1 : 0;
         this->radix = radix;
     }
-    template <typename SrcType, typename std::enable_if_t<std::is_signed<SrcType>::value, int> = 0>
+    template <typename SrcType,
+              typename std::enable_if_t<
+                  std::is_signed<SrcType>::value && !std::is_floating_point<SrcType>::value, int> = 0>
     inline WithRadix(SrcType v, u32 radix, bool capitalize = false) {
         this->s64_ = v;
         this->type = S64;
-- 
2.43.0


From 210f80283ead01cf90fda37c4ba0998694a832c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 034/149] fix: QuotedString accepts an empty string at the end
 of the input

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index a2aac28..0e52677 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -260,6 +260,8 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
     bool multiline = false;
     for (;;) {
         if (!ins->tryMakeBytesAvailable()) {
+            if (quoteRun == 2 && !multiline)
+                break; // empty string
             handleError(fmt::QuotedString::UnexpectedEndOfFile);
             break; // end of string
         }
-- 
2.43.0


From de6fb675ee5163f8fd66403a1a671683db43c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 035/149] fix: EscapedString writes control characters as \xHH
 and QuotedString parses them

---
 .../runtime/ply-runtime/io/impl/FormatString.cpp  |  4 ++--
 .../runtime/ply-runtime/io/impl/TypeParser.cpp    | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index 8bfe2a5..44459d8 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -243,8 +243,8 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << '\\' << digits[(decoded.point >> 4) & 0xf]
-                        << digits[decoded.point & 0xf];
+                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
+                          << digits[decoded.point & 0xf];
                 }
                 break;
             }
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 0e52677..ca4c841 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -351,8 +351,19 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
                             break;
                         }
 
-                            // FIXME: Implement escape hex codes
-                            // case 'x':
+                        case 'x': {
+                            // Exactly two hexadecimal digits
+                            u32 numAvailable = ins->tryMakeBytesAvailable(3);
+                            u8 hi = numAvailable > 1 ? DigitTable[(u8) ins->peekByte(1)] : 255;
+                            u8 lo = numAvailable > 2 ? DigitTable[(u8) ins->peekByte(2)] : 255;
+                            if (hi < 16 && lo < 16) {
+                                outs.writeByte(hi * 16 + lo);
+                                ins->advanceByte(2);
+                            } else {
+                                handleError(fmt::QuotedString::BadEscapeSequence);
+                            }
+                            break;
+                        }
 
                         default: {
                             handleError(fmt::QuotedString::BadEscapeSequence);
-- 
2.43.0


From 65e36566e8055fec9d31cb11d19966c7e1ee6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 036/149] fix: Identifier reports an error when there is no
 identifier

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index ca4c841..f1ec864 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -409,7 +409,7 @@ bool fmt::FormatParser<fmt::Identifier>::parse(InStream* ins, const fmt::Identif
         ins->advanceByte();
     }
 
-    if (mask[1] == 0) {
+    if (first) {
         ins->status.parseError = 1;
         return false;
     }
-- 
2.43.0


From 29168bed128b06afa17a5bcc5c175af555209d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 037/149] fix: scanUpToAndIncludingSpecial finds a match that
 begins where a partial match ends

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index f1ec864..be3d69d 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -71,7 +71,8 @@ PLY_NO_INLINE bool fmt::scanUpToAndIncludingSpecial(InStream* ins, StringView sp
             if (matchedUnits >= special.numBytes)
                 return true;
         } else {
-            matchedUnits = 0;
+            // The first letter doesn't reoccur, so a new match can only begin here.
+            matchedUnits = (c == (u8) special.bytes[0]) ? 1 : 0;
         }
     }
     // special wasn't found
-- 
2.43.0


From 4722984cc04cd7069ddda4c18816460f06279552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 038/149] fix: CmdLineArg_WinCrt keeps empty arguments and
 trailing backslashes

---
 .../plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index 44459d8..958d590 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -295,7 +295,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::XMLEscape>::print(OutStream* outs, cons
 PLY_NO_INLINE void
 fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                                                 const fmt::CmdLineArg_WinCrt& value) {
-    bool needsQuote = false;
+    bool needsQuote = (value.view.numBytes == 0);
     const char* end = value.view.end();
     for (const char* cur = value.view.bytes; cur < end; cur++) {
         if (isWhite(*cur) || *cur == '"') {
@@ -322,6 +322,9 @@ fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                 *outs << c;
             }
         }
+        for (; backslashCount > 0; backslashCount--) {
+            *outs << "\\\\";
+        }
         *outs << '"';
     } else {
         *outs << value.view;
-- 
2.43.0


From 9a42deab0e1c1695343690031e21b07a074f3296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 039/149] fix: extractLiquidTags does not repeat characters
 after % or miss a tag after <

---
 repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
index 41abf82..9c0066e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
@@ -56,7 +56,6 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                             break;
                         } else {
                             mout.writeByte(unit);
-                            mout.writeByte(*vins->curByte);
                         }
                     } else {
                         mout.writeByte(unit);
@@ -75,9 +74,6 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                 }
             } else {
                 outs->writeByte(unit);
-                outs->writeByte(*vins->curByte);
-                if (!advanceByte())
-                    return; // EOF
             }
         } else {
             outs->writeByte(unit);
-- 
2.43.0


From b298058b148dc17a00da57fd72c37800be771e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 040/149] fix: UTF8::decodePoint reports overlong forms as
 invalid

---
 .../plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 3cff91b..771ccdd 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -67,6 +67,7 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
             break;
     }
 
+badEncoding:
     // Bad encoding; consume just one byte
     // Invalid/truncated status has already been set
     result.point = first;
@@ -81,6 +82,11 @@ consume2Bytes:
     bytes++;
 consume1Byte:
     value = (value << 6) | (*bytes & 0x3f);
+    if (numBytes(value) < result.numBytes) {
+        // Overlong form
+        result.status = DecodeResult::Status::Invalid;
+        goto badEncoding;
+    }
     result.point = value;
     result.status = DecodeResult::Status::Valid;
     return result;
-- 
2.43.0


From b667ea9f4bc068d6205fe905e81847e631d6cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 041/149] fix: normalizing a path keeps every leading ".." and
 never removes the root

---
 .../src/runtime/ply-runtime/filesystem/Path.cpp   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..2f29cc2 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -153,14 +153,19 @@ struct PathCompIterator {
     PLY_NO_INLINE Array<StringView> getNormalizedComps(const PathFormat* pathFmt,
                                                        ArrayView<const StringView> components) {
         Array<StringView> normComps;
-        u32 upCount = 0;
+        bool atRoot = false; // True if the path is absolute
+        u32 baseCount = 0;   // Number of leading components that ".." can't remove
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
-            if (comp == "..") {
-                if (normComps.numItems() > upCount) {
+            if (comp.bytes == this->firstComp || comp.bytes == &pathFmt->sepByte()) {
+                normComps.append(comp);
+                atRoot = pathFmt->isSepByte(comp.back());
+                baseCount = 1;
+            } else if (comp == "..") {
+                if (normComps.numItems() > baseCount) {
                     normComps.pop();
-                } else {
-                    PLY_ASSERT(normComps.numItems() == upCount);
+                } else if (!atRoot) {
                     normComps.append("..");
+                    baseCount++;
                 }
             } else if (comp != "." && !comp.isEmpty()) {
                 normComps.append(comp);
-- 
2.43.0


From e1244db33a9a97f7c2912fc548ab7f6a9e14302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 042/149] fix: normalizing Windows paths keeps a leading
 separator and drive-relative paths relative

---
 .../src/runtime/ply-runtime/filesystem/Path.cpp        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 2f29cc2..dd2c38b 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -94,7 +94,10 @@ struct PathCompIterator {
         s32 absoluteIndex = -1;
         s32 driveLetterIndex = -1;
         for (s32 i = components.numItems - 1; i >= 0; i--) {
-            if (absoluteIndex < 0 && pathFmt->isAbsolute(components[i])) {
+            // A path with a leading separator replaces everything but the drive letter
+            if (absoluteIndex < 0 &&
+                (pathFmt->isAbsolute(components[i]) ||
+                 (components[i].numBytes > 0 && pathFmt->isSepByte(components[i][0])))) {
                 absoluteIndex = i;
             }
             if (pathFmt->hasDriveLetter(components[i])) {
@@ -191,9 +194,8 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
             if (needSep) {
                 mout << this->sepByte();
             } else {
-                if (comp.numBytes > 0) {
-                    needSep = !this->isSepByte(comp[comp.numBytes - 1]);
-                }
+                // No separator after the root or after a drive letter
+                needSep = !this->isSepByte(comp.back()) && comp.bytes != compIter.firstComp;
             }
             mout << comp;
         }
-- 
2.43.0


From 4aedbb95c6f7638bdae932204cab99e0fa3b269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 043/149] fix: normalizing a path to the current folder keeps
 its trailing separator

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index dd2c38b..08ab94f 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -182,7 +182,8 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
     PathCompIterator compIter;
     Array<StringView> normComps = compIter.getNormalizedComps(this, components);
     if (normComps.isEmpty()) {
-        if (components.numItems > 0 && components.back().isEmpty()) {
+        if (components.numItems > 0 &&
+            (components.back().isEmpty() || this->isSepByte(components.back().back()))) {
             return StringView{"."} + this->sepByte();
         } else {
             return ".";
-- 
2.43.0


From 7200aee836b777ae6c5fb189910f540b83ac4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 044/149] fix: splitExt ignores every leading period

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 08ab94f..ca5b0be 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -79,8 +79,9 @@ PLY_DLL_ENTRY Tuple<StringView, StringView> PathFormat::splitExt(StringView path
         lastComp = lastComp.subStr(slashPos + 1);
     }
     s32 dotPos = lastComp.rfindByte([](u32 c) { return c == '.'; });
-    if (dotPos < 0 || dotPos == 0) {
-        dotPos = lastComp.numBytes;
+    s32 nonDotPos = lastComp.findByte([](u32 c) { return c != '.'; });
+    if (nonDotPos < 0 || dotPos < nonDotPos) {
+        dotPos = lastComp.numBytes; // No period, or only leading periods
     }
     return {path.shortenedBy(lastComp.numBytes - dotPos), lastComp.subStr(dotPos)};
 }
-- 
2.43.0


From 0f57d8986df7f20e2fa52dbd6f51135d03c81009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 045/149] fix: converting a Windows path to a Windows path
 makes its separators uniform

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index ca5b0be..cfc9db5 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -267,7 +267,7 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
 }
 
 PLY_NO_INLINE HybridString PathFormat::from(const PathFormat& srcFormat, StringView srcPath) const {
-    if (this->isWindows == srcFormat.isWindows)
+    if (!this->isWindows && !srcFormat.isWindows)
         return srcPath;
     String result = srcPath;
     char* bytes = result.bytes;
-- 
2.43.0


From 6b9bf392fc918e70c9638fee116af0bc60b33a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 046/149] fix: FileSystem_POSIX reports errors as results
 instead of asserting

---
 .../filesystem/impl/FileSystem_POSIX.cpp      | 54 +++++++++++++++----
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..871b3b3 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -13,7 +13,7 @@
 #include <fcntl.h>
 #include <limits.h>
 
-#define PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS 0
+#define PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS 1
 
 namespace ply {
 
@@ -33,6 +33,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
         this->entry = {};
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
             case EACCES:
                 return FileSystem::setLastResult(FSResult::AccessDenied);
@@ -123,6 +124,15 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
             case EISDIR: {
                 return FileSystem::setLastResult(FSResult::AlreadyExists);
             }
+            case ENOENT:
+            case ENOTDIR: {
+                return FileSystem::setLastResult(FSResult::NotFound);
+            }
+            case EACCES:
+            case EPERM:
+            case EROFS: {
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            }
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
@@ -138,7 +148,10 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::setWorkingDirectory(FileSystem*, String
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
+            case EACCES:
+                return FileSystem::setLastResult(FSResult::AccessDenied);
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
@@ -180,7 +193,7 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
-    if (errno != ENOENT) {
+    if (errno != ENOENT && errno != ENOTDIR) {
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
     }
     return ExistsResult::NotFound;
@@ -193,6 +206,7 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForRead(StringView path) {
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 FileSystem::setLastResult(FSResult::NotFound);
                 break;
 
@@ -224,10 +238,14 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForWrite(StringView path) {
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 FileSystem::setLastResult(FSResult::NotFound);
                 break;
 
             case EACCES:
+            case EISDIR:
+            case EPERM:
+            case EROFS:
                 FileSystem::setLastResult(FSResult::AccessDenied);
                 break;
 
@@ -247,12 +265,28 @@ PLY_NO_INLINE Owned<OutPipe> FileSystem_POSIX::openPipeForWrite(FileSystem*, Str
     return new OutPipe_FD{fd};
 }
 
+// Sets the last result after moving or deleting something fails.
+static FSResult setLastResultFromErrno() {
+    switch (errno) {
+        case ENOENT:
+        case ENOTDIR:
+            return FileSystem::setLastResult(FSResult::NotFound);
+        case EACCES:
+        case EISDIR:
+        case EPERM:
+        case EROFS:
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        default:
+            PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
+            return FileSystem::setLastResult(FSResult::Unknown);
+    }
+}
+
 PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPath,
                                                   StringView dstPath) {
     int rc = rename(srcPath.withNullTerminator().bytes, dstPath.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
@@ -260,8 +294,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
 PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path) {
     int rc = unlink(path.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
@@ -277,15 +310,13 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
         } else {
             int rc = unlink(joined.withNullTerminator().bytes);
             if (rc != 0) {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
+                return setLastResultFromErrno();
             }
         }
     }
     int rc = rmdir(dirPath.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
@@ -296,7 +327,8 @@ PLY_NO_INLINE FileStatus FileSystem_POSIX::getFileStatus(FileSystem*, StringView
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc != 0) {
         switch (errno) {
-            case ENOENT: {
+            case ENOENT:
+            case ENOTDIR: {
                 status.result = FileSystem::setLastResult(FSResult::NotFound);
                 break;
             }
-- 
2.43.0


From 9a23eb8ed6f7c96a2d9c7864c068c4cc8c35591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 047/149] fix: removeDirTree also removes dangling symbolic
 links

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 871b3b3..f98e715 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -300,7 +300,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath)) {
+    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath, 0)) {
         String joined = PosixPath::join(dirPath, dirEntry.name);
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
-- 
2.43.0


From 51d6e4b6db30db06024466abcb2b56a9ae9eb633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 048/149] fix: listDir frees its copy of the path

---
 .../src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index f98e715..e28464e 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -24,6 +24,7 @@ PLY_NO_INLINE void FileSystem_POSIX::DirImpl::destructImpl(ply::Directory::Impl*
         PLY_ASSERT(rc == 0);
         PLY_UNUSED(rc);
     }
+    dirImpl->dirPath.~String();
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
-- 
2.43.0


From 422114920a65873ba7adcd962a17bcecd5166a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 049/149] fix: opening a directory for reading is reported as
 an error

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index e28464e..fbebc04 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -202,6 +202,13 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
 
 PLY_NO_INLINE int FileSystem_POSIX::openFDForRead(StringView path) {
     int fd = open(path.withNullTerminator().bytes, O_RDONLY | O_CLOEXEC);
+    struct stat buf;
+    if (fd != -1 && fstat(fd, &buf) == 0 && S_ISDIR(buf.st_mode)) {
+        // Directories can be opened for reading, but not read
+        close(fd);
+        FileSystem::setLastResult(FSResult::AccessDenied);
+        return -1;
+    }
     if (fd != -1) {
         FileSystem::setLastResult(FSResult::OK);
     } else {
-- 
2.43.0


From 7279a6f86409e431c4eee9cf1e51ea796339b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 050/149] fix: makeDirs accepts a trailing separator

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..2878776 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -93,8 +93,10 @@ PLY_NO_INLINE FSResult FileSystem::makeDirs(StringView path) {
         return FileSystem::setLastResult(FSResult::AccessDenied);
     } else {
         auto split = this->pathFormat().split(path);
-        if (!split.first.isEmpty() && !split.second.isEmpty()) {
+        if (!split.first.isEmpty()) {
             FSResult r = makeDirs(split.first);
+            if (split.second.isEmpty()) // path ends with a separator
+                return r;
             if (r != FSResult::OK && r != FSResult::AlreadyExists)
                 return r;
         }
-- 
2.43.0


From 4303bdfe273c078d7ddb270da291ebac40e1367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 051/149] fix: loadBinary returns only the bytes that were read

---
 .../src/runtime/ply-runtime/filesystem/FileSystem.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 2878776..dcfdcb6 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -142,7 +142,16 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
         u64 fileSize = inPipe->getFileSize();
         // Files >= 4GB cannot be loaded this way:
         result.resize(safeDemote<u32>(fileSize));
-        inPipe->read({result.bytes, result.numBytes});
+        MutableStringView remaining{result.bytes, result.numBytes};
+        while (remaining.numBytes > 0) {
+            u32 numRead = inPipe->readSome(remaining);
+            if (numRead == 0) {
+                // The file got shorter, or an error occurred
+                result.resize(result.numBytes - remaining.numBytes);
+                break;
+            }
+            remaining.offsetHead(numRead);
+        }
     }
     return result;
 }
-- 
2.43.0


From f23de5eec533a86f8192cde3faf9e8d97af6d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 052/149] fix: a virtual file system rejects paths that lead
 outside its root

---
 .../filesystem/impl/FileSystem_Virtual.cpp    | 74 +++++++++++++++----
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..ccd9af7 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -8,27 +8,48 @@
 
 namespace ply {
 
+struct EmptyDirImpl : Directory::Impl {
+    EmptyDirImpl() {
+        this->destruct = [](Directory::Impl*) {};
+        this->next = [](Directory::Impl*) { return FileSystem::setLastResult(FSResult::OK); };
+    }
+};
+
 struct FileSystem_Virtual : FileSystem {
     FileSystem* targetFS = nullptr;
     String targetRoot;
 
     FileSystem_Virtual();
 
-    PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
+    // Returns false if path leads outside targetRoot.
+    PLY_NO_INLINE bool convertToTargetPath(String* targetPath, StringView path) const {
         PathFormat pathFmt = this->targetFS->pathFormat();
-        PLY_ASSERT(!pathFmt.isAbsolute(path));
-        return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
+        HybridString relPath = pathFmt.from<PosixPath>(path);
+        if (!relPath.isEmpty() && !pathFmt.isRelative(relPath))
+            return false;
+        String normalized = pathFmt.normalize(relPath);
+        if (pathFmt.splitFull(normalized)[0] == "..")
+            return false;
+        *targetPath = pathFmt.join(this->targetRoot, relPath);
+        return true;
     }
 
     static PLY_NO_INLINE Directory listDir(FileSystem* fs_, StringView path, u32 flags) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->listDir(fs->convertToTargetPath(path), flags);
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path)) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return Directory{new EmptyDirImpl};
+        }
+        return fs->targetFS->listDir(targetPath, flags);
     }
 
     static PLY_NO_INLINE FSResult makeDir(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->makeDir(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->makeDir(targetPath);
     }
 
     static PLY_NO_INLINE FSResult setWorkingDirectory(FileSystem*, StringView) {
@@ -43,39 +64,64 @@ struct FileSystem_Virtual : FileSystem {
 
     static PLY_NO_INLINE ExistsResult exists(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->exists(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return ExistsResult::NotFound;
+        return fs->targetFS->exists(targetPath);
     }
 
     static PLY_NO_INLINE Owned<InPipe> openPipeForRead(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForRead(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path)) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return nullptr;
+        }
+        return fs->targetFS->openPipeForRead(targetPath);
     }
 
     static PLY_NO_INLINE Owned<OutPipe> openPipeForWrite(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForWrite(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path)) {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return nullptr;
+        }
+        return fs->targetFS->openPipeForWrite(targetPath);
     }
 
     static PLY_NO_INLINE FSResult moveFile(FileSystem* fs_, StringView srcPath,
                                            StringView dstPath) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->moveFile(fs->convertToTargetPath(srcPath),
-                                      fs->convertToTargetPath(dstPath));
+        String targetSrcPath, targetDstPath;
+        if (!fs->convertToTargetPath(&targetSrcPath, srcPath) ||
+            !fs->convertToTargetPath(&targetDstPath, dstPath))
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->moveFile(targetSrcPath, targetDstPath);
     }
 
     static PLY_NO_INLINE FSResult deleteFile(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->deleteFile(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->deleteFile(targetPath);
     }
 
     static PLY_NO_INLINE FSResult removeDirTree(FileSystem* fs_, StringView dirPath) {   
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->removeDirTree(fs->convertToTargetPath(dirPath));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, dirPath))
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        return fs->targetFS->removeDirTree(targetPath);
     }
 
     static PLY_NO_INLINE FileStatus getFileStatus(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->getFileStatus(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return FileStatus{FileSystem::setLastResult(FSResult::AccessDenied)};
+        return fs->targetFS->getFileStatus(targetPath);
     }
 };
 
-- 
2.43.0


From 83518d230b802814482cb433c22c2b4b100ed692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 053/149] fix: destroying a virtual file system frees its root
 path

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.h | 6 ++++++
 .../ply-runtime/filesystem/impl/FileSystem_Virtual.cpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
index 89b2ac4..3c3fb2b 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
@@ -200,6 +200,7 @@ struct FileSystem {
         FSResult (*deleteFile)(FileSystem* fs, StringView path) = nullptr;
         FSResult (*removeDirTree)(FileSystem* fs, StringView dirPath) = nullptr;
         FileStatus (*getFileStatus)(FileSystem* fs, StringView path) = nullptr;
+        void (*destroy)(FileSystem* fs) = nullptr; // optional
     };
 
     static ThreadLocal<FSResult> lastResult_;
@@ -208,6 +209,11 @@ struct FileSystem {
 
     PLY_INLINE FileSystem(Funcs* funcs) : funcs{funcs} {
     }
+    PLY_INLINE ~FileSystem() {
+        if (this->funcs->destroy) {
+            this->funcs->destroy(this);
+        }
+    }
 
     /*!
     Returns a `FileSystem` object that interacts with the native filesystem.
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index ccd9af7..93ba06c 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -21,6 +21,11 @@ struct FileSystem_Virtual : FileSystem {
 
     FileSystem_Virtual();
 
+    static PLY_NO_INLINE void destroy(FileSystem* fs_) {
+        FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
+        fs->targetRoot.~String();
+    }
+
     // Returns false if path leads outside targetRoot.
     PLY_NO_INLINE bool convertToTargetPath(String* targetPath, StringView path) const {
         PathFormat pathFmt = this->targetFS->pathFormat();
@@ -138,6 +143,7 @@ FileSystem::Funcs FileSystemFuncs_Virtual = {
     FileSystem_Virtual::deleteFile,
     FileSystem_Virtual::removeDirTree,
     FileSystem_Virtual::getFileStatus,
+    FileSystem_Virtual::destroy,
 };
 
 PLY_INLINE FileSystem_Virtual::FileSystem_Virtual() : FileSystem{&FileSystemFuncs_Virtual} {
-- 
2.43.0


From e0f0ae08fe5618093f2a95a96eb0ace6d0bacddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 054/149] fix: saving a file through a temporary file leaves
 the old or the new contents

---
 .../ply-runtime/filesystem/FileSystem.cpp     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index dcfdcb6..250b08c 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -5,6 +5,7 @@
 #include <ply-runtime/Precomp.h>
 #include <ply-runtime/filesystem/FileSystem.h>
 #include <ply-runtime/io/Pipe.h>
+#include <ply-runtime/algorithm/Random.h>
 
 namespace ply {
 
@@ -205,14 +206,28 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
         return result;
     }
 
-    // Save file
-    // FIXME: Use temporary file
-    Owned<OutPipe> outPipe = this->openPipeForWrite(path);
+    // Save to a temporary file in the same folder
+    StringView fileName = this->pathFormat().split(path).second;
+    String tempPath = String::format("{}{}.tmp", path.shortenedBy(fileName.numBytes),
+                                     Random{}.next64());
+    Owned<OutPipe> outPipe = this->openPipeForWrite(tempPath);
     result = this->lastResult();
     if (result != FSResult::OK) {
         return result;
     }
-    outPipe->write(view);
+    bool written = outPipe->write(view);
+    outPipe.clear();
+    if (!written) {
+        this->deleteFile(tempPath);
+        return FileSystem::setLastResult(FSResult::Unknown);
+    }
+
+    // Replace the original file
+    result = this->moveFile(tempPath, path);
+    if (result != FSResult::OK) {
+        this->deleteFile(tempPath);
+        FileSystem::setLastResult(result);
+    }
     return result;
 }
 
-- 
2.43.0


From 71eeb4b6904f97f3c7dc81be4ca36a254f33c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 055/149] fix: makeDirs stops at a root folder that can't be
 examined

---
 repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 250b08c..13d99e8 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -94,7 +94,7 @@ PLY_NO_INLINE FSResult FileSystem::makeDirs(StringView path) {
         return FileSystem::setLastResult(FSResult::AccessDenied);
     } else {
         auto split = this->pathFormat().split(path);
-        if (!split.first.isEmpty()) {
+        if (!split.first.isEmpty() && split.first.numBytes < path.numBytes) {
             FSResult r = makeDirs(split.first);
             if (split.second.isEmpty()) // path ends with a separator
                 return r;
-- 
2.43.0


From 26e50a55cbbf2d6c53cdfed58f07ae996d1bcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 056/149] fix: saving a file does not mistake a file that can't
 be read completely for unchanged

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 13d99e8..96f73c3 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -192,7 +192,9 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
     // Load existing contents
     String existingContents = this->loadBinary(path);
     FSResult existingResult = this->lastResult();
-    if (existingResult == FSResult::OK && existingContents == view) {
+    // (The size is checked too, because loadBinary returns less than that if the file can't be read)
+    if (existingResult == FSResult::OK && existingContents == view &&
+        this->getFileStatus(path).fileSize == view.numBytes) {
         return FileSystem::setLastResult(FSResult::Unchanged);
     }
     if (existingResult != FSResult::OK && existingResult != FSResult::NotFound) {
-- 
2.43.0


From 30a6ca9ffcbfab031341465cb1ff92e302033d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 057/149] fix: a Subprocess whose initial directory can't be
 entered fails instead of running elsewhere

---
 .../src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index d976939..ac6e3c1 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -227,6 +227,8 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
         // Exec the new process:
         if (nullTerminatedInitialDir) {
             rc = chdir(nullTerminatedInitialDir.bytes);
+            if (rc != 0)
+                abort(); // don't run the new process in a different directory
         }
         rc = execvp(nullTerminatedExePath.bytes, argsToExecv.get());
         PLY_UNUSED(rc);
-- 
2.43.0


From ce010d06c3e4631badcf9ee1b80a0a78f207b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:16 +0000
Subject: [PATCH 058/149] fix: Subprocesses started by several threads don't
 inherit each other's pipes

---
 .../runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index ac6e3c1..0034333 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -99,6 +99,11 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     int childStdOutFD[2] = {-1, -1}; // 0 is read, 1 is write
     int childStdErrFD[2] = {-1, -1}; // 0 is read, 1 is write
 
+    // Until the child's ends of the pipes are closed again below, a process forked by another
+    // thread would inherit them, and the pipes would stay open as long as that process runs.
+    static Mutex mutex;
+    LockGuard<Mutex> guard{mutex};
+
     //-----------------------------------------------------------
     // Configure child process's stdin
     //-----------------------------------------------------------
-- 
2.43.0


From 3c5055a3aed984e576799ea2f6d3a0866b389989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:45 +0000
Subject: [PATCH 059/149] fix: a Subprocess doesn't inherit the descriptors
 kept for null input and output

---
 .../src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index 0034333..c02d146 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -65,7 +65,7 @@ PLY_NO_INLINE int getNullInFD_POSIX() {
         if (fd == -1) {
             // FIXME: If open() fails, create a pipe here and spawn a thread that
             // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_RDONLY);
+            fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
             PLY_ASSERT(fd != -1);
         }
     }
@@ -82,7 +82,7 @@ PLY_NO_INLINE int getNullOutFD_POSIX() {
         if (fd == -1) {
             // FIXME: If open() fails, create a pipe here and spawn a thread that
             // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_WRONLY);
+            fd = open("/dev/null", O_WRONLY | O_CLOEXEC);
             PLY_ASSERT(fd != -1);
         }
     }
-- 
2.43.0


From 3bcb3cc9d02d565da15198ddd60c14c640b8798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 060/149] fix: resolveHostName returns a null address when the
 name can't be resolved

---
 .../src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 86e5f74..ee0fb69 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -291,8 +291,8 @@ PLY_NO_INLINE IPAddress Socket_POSIX::resolveHostName(StringView hostName,
 #endif
     struct addrinfo* res = nullptr;
     int rc = getaddrinfo(hostName.withNullTerminator().bytes, nullptr, &hints, &res);
-    PLY_ASSERT(rc == 0);
-    PLY_UNUSED(rc);
+    if (rc != 0)
+        return {}; // null
     struct addrinfo* best = nullptr;
     for (struct addrinfo* cur = res; cur; cur = cur->ai_next) {
 #if PLY_WITH_IPV6
@@ -309,7 +309,7 @@ PLY_NO_INLINE IPAddress Socket_POSIX::resolveHostName(StringView hostName,
         }
     }
 
-    IPAddress ipAddr;
+    IPAddress ipAddr = {}; // null
     if (best) {
 #if PLY_WITH_IPV6
         if (best->ai_family == AF_INET6) {
-- 
2.43.0


From 465d46e09a9ec585d1dcd889bfef6174cd642547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 061/149] fix: the last decRef of a shared object happens after
 every other thread's use of it

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 0786f94..51f8b14 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -37,7 +37,8 @@ public:
         PLY_UNUSED(oldCount);
     }
     PLY_INLINE void decRef() {
-        s32 oldCount = m_refCount.fetchSub(1, Relaxed);
+        // AcquireRelease makes every other thread's last use of the object visible to onRefCountZero:
+        s32 oldCount = m_refCount.fetchSub(1, AcquireRelease);
         PLY_ASSERT(oldCount >= 1 && oldCount < UINT16_MAX);
         if (oldCount == 1) {
             static_cast<Mixin*>(this)->onRefCountZero();
-- 
2.43.0


From 3286b1a95261d7f8559150c7db464341ccf15129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 062/149] fix: a ThreadLocal pointer can be stored

---
 .../runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
index 9b6ebc7..d6873bb 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
@@ -42,6 +42,13 @@ public:
         return (T)(uptr) value;
     }
 
+    template <typename U = T, std::enable_if_t<std::is_pointer<U>::value, int> = 0>
+    PLY_INLINE void store(U value) {
+        int rc = pthread_setspecific(m_tlsKey, (const void*) value);
+        PLY_ASSERT(rc == 0);
+        PLY_UNUSED(rc);
+    }
+
     template <typename U = T,
               std::enable_if_t<std::is_enum<U>::value || std::is_integral<U>::value, int> = 0>
     PLY_INLINE void store(U value) {
-- 
2.43.0


From 37b7d1f8bfb610458f56a8d458c942fbba4908a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 063/149] fix: RWLock_CPP14 compiles

---
 .../runtime/ply-runtime/thread/impl/RWLock_CPP14.h  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/RWLock_CPP14.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/RWLock_CPP14.h
index 2a259d5..c987d1b 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/RWLock_CPP14.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/RWLock_CPP14.h
@@ -4,28 +4,29 @@
 ------------------------------------*/
 #pragma once
 #include <ply-runtime/Core.h>
+#include <shared_mutex>
 
 namespace ply {
 
-class RWLock_CPP14 : protected std::shared_mutex {
+class RWLock_CPP14 : protected std::shared_timed_mutex {
 public:
-    RWLock_CPP14() : std::shared_mutex() {
+    RWLock_CPP14() : std::shared_timed_mutex() {
     }
 
     void lockExclusive() {
-        std::shared_mutex::lock();
+        std::shared_timed_mutex::lock();
     }
 
     void unlockExclusive() {
-        std::shared_mutex::unlock();
+        std::shared_timed_mutex::unlock();
     }
 
     void lockShared() {
-        std::shared_mutex::lockShared();
+        std::shared_timed_mutex::lock_shared();
     }
 
     void unlockShared() {
-        std::shared_mutex::unlockShared();
+        std::shared_timed_mutex::unlock_shared();
     }
 };
 
-- 
2.43.0


From abfa091b325a87b866e65b0ab7e78bdf942fb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 064/149] fix: ThreadLocalScope's move constructor compiles

---
 repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
index c703d74..8de0451 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
@@ -22,9 +22,9 @@ public:
 
     ThreadLocalScope(const ThreadLocalScope&) = delete;
     PLY_INLINE ThreadLocalScope(ThreadLocalScope&& other) {
-        this->var = other->var;
+        this->var = other.var;
         this->oldValue = std::move(other.oldValue);
-        other->var = nullptr;
+        other.var = nullptr;
     }
 
     ~ThreadLocalScope() {
-- 
2.43.0


From 7d7fa9214b2040107a0f34e61c2e23a6c70e0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:35 +0000
Subject: [PATCH 065/149] fix: a Thread that the system could not create is not
 valid

---
 .../src/runtime/ply-runtime/thread/impl/Thread_POSIX.h     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
index 94f1ca5..02eec18 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/Thread_POSIX.h
@@ -39,7 +39,12 @@ public:
     PLY_INLINE void run(Callable&& callable) {
         PLY_ASSERT(!m_attached);
         Wrapper<Callable>* wrapper = new Wrapper<Callable>{std::forward<Callable>(callable)};
-        pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
+        int rc = pthread_create(&m_handle, NULL, Wrapper<Callable>::start, wrapper);
+        if (rc != 0) {
+            // The system is out of resources; isValid() will return false
+            delete wrapper;
+            return;
+        }
         m_attached = true;
     }
 
-- 
2.43.0


From 5edc2fa3d7c5e41bcc2c99e5a3d1c6825385374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 066/149] fix: heap statistics count directly mapped
 allocations as in use

---
 repos/plywood/src/runtime/ply-runtime/memory/impl/Heap_DL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/memory/impl/Heap_DL.cpp b/repos/plywood/src/runtime/ply-runtime/memory/impl/Heap_DL.cpp
index aec8234..c085ee6 100644
--- a/repos/plywood/src/runtime/ply-runtime/memory/impl/Heap_DL.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/memory/impl/Heap_DL.cpp
@@ -1623,7 +1623,9 @@ static void internal_malloc_stats(mstate m, Stats& stats) {
       fp = m->footprint;
       // Refined stats:
       // Unlike DLMalloc's original stats, this doesn't count malloc_segments or fenceposts as allocated chunks.
+      size_t mapped = fp;
       while (s != 0) {
+        mapped -= s->size;
         mchunkptr q = align_as_chunk(s->base);
         mchunkptr sc = mem2chunk(s);
         while (segment_holds(s, q) &&
@@ -1634,6 +1636,7 @@ static void internal_malloc_stats(mstate m, Stats& stats) {
         }
         s = s->next;
       }
+      used += mapped; // Directly mapped chunks don't belong to any segment
     }
     POSTACTION(m); /* drop lock */
     stats.peakSystemBytes = maxfp;
-- 
2.43.0


From b38a0bb14483c7273026a80fc53f9a5b5505ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:46 +0000
Subject: [PATCH 067/149] fix: DateTime handles times before 1970 and gives the
 right weekday

---
 .../plywood/src/runtime/ply-runtime/time/DateTime.cpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
index 15297d1..4c33d32 100644
--- a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
@@ -49,14 +49,16 @@ template <typename T>
 PLY_INLINE T floorDiv(T dividend, T divisor) {
     PLY_STATIC_ASSERT(std::is_arithmetic<T>::value);
     PLY_ASSERT(divisor > 0);
-    if (dividend < 0) {
-        dividend += divisor - 1;
+    T quotient = dividend / divisor;
+    if (quotient * divisor > dividend) {
+        quotient--;
     }
-    return dividend / divisor;
+    return quotient;
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
 void setDateFromEpochDays(DateTime* dateTime, s32 days) {
+    s32 weekday = (days + 4) % 7; // January 1, 1970 was a Thursday
     days += 719468;
     s32 era = (days >= 0 ? days : days - 146096) / 146097;
     u32 doe = u32(days - era * 146097);                              // [0, 146096]
@@ -69,7 +71,7 @@ void setDateFromEpochDays(DateTime* dateTime, s32 days) {
     dateTime->year = y + (m <= 2);
     dateTime->month = safeDemote<u8>(m);
     dateTime->day = safeDemote<u8>(d);
-    dateTime->weekday = safeDemote<u8>(days >= -4 ? (days + 4) % 7 : (days + 5) % 7 + 6);
+    dateTime->weekday = safeDemote<u8>(weekday >= 0 ? weekday : weekday + 7);
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
-- 
2.43.0


From b776854ae7587d2dafd57c815aacf1beed9c637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 068/149] fix: rfind in an empty array returns -1

---
 repos/plywood/src/runtime/ply-runtime/algorithm/Find.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
index f0c85e0..2bfe701 100644
--- a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
+++ b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
@@ -38,7 +38,7 @@ PLY_INLINE s32 find(const Arr& arr, const Arg& arg) {
 // rfind
 template <typename T, typename U, std::enable_if_t<IsComparable<T, U>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (arr[i] == item)
             return i;
     }
@@ -47,7 +47,7 @@ PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
 
 template <typename T, typename Callback, std::enable_if_t<IsCallable<Callback, T>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const Callback& callback) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (callback(arr[i]))
             return i;
     }
-- 
2.43.0


From 08f6ca8bb80e12ea61cf6ea4e8374441df389500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 069/149] fix: adding a u128 to itself carries into the high
 half

---
 repos/plywood/src/runtime/ply-runtime/container/Int128.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Int128.h b/repos/plywood/src/runtime/ply-runtime/container/Int128.h
index 97598fe..d8bf556 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Int128.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Int128.h
@@ -23,9 +23,10 @@ struct u128 {
         return !(this->hi == other.hi && this->lo == other.lo);
     }
     PLY_INLINE void operator+=(const u128& other) {
+        u64 prevLo = this->lo;
         this->hi += other.hi;
         this->lo += other.lo;
-        this->hi += this->lo < other.lo;
+        this->hi += this->lo < prevLo;
     }
     PLY_INLINE static u128 zero() {
         return {};
-- 
2.43.0


From 7934fe58ff0440b1388cb12e212f4acc167c9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 070/149] fix: FileLocationMap handles multibyte characters
 across and at its chunk boundaries, and files that end on one

---
 .../ply-runtime/io/text/FileLocationMap.cpp     | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..520f7ca 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -26,7 +26,7 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
         if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
@@ -44,6 +44,10 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
             columnNumber++;
         }
     }
+    if (ofs == nextChunkOfs) {
+        // The end of the file is an offset too, and it begins a chunk of its own
+        result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, 0});
+    }
     return result;
 }
 
@@ -59,13 +63,16 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
     u32 columnNumber = fileLoc.columnNumber;
 
     for (;;) {
-        if (src.bytes >= target) {
-            u32 nb = safeDemote<u32>(target - src.bytes);
-            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
-        }
+        u32 nb = safeDemote<u32>(target - src.bytes);
+        if (nb == 0)
+            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, 0};
 
         // FIXME: Unify with similar code in previous function
         DecodeResult decoded = UTF8::decodePoint(src);
+        if (nb < decoded.numBytes) {
+            // target is in the middle of a multibyte character
+            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
+        }
         src.offsetHead(decoded.numBytes);
 
         if (decoded.point == '\n') {
-- 
2.43.0


From 021793dcbb0f0ee461ac796667514cccd9dd8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:42 +0000
Subject: [PATCH 071/149] fix: makeProjection of a frustum that is off center
 vertically

---
 repos/plywood/src/math/math/ply-math/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Matrix.cpp b/repos/plywood/src/math/math/ply-math/Matrix.cpp
index b0903ed..cc284e1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.cpp
+++ b/repos/plywood/src/math/math/ply-math/Matrix.cpp
@@ -285,7 +285,7 @@ PLY_NO_INLINE Float4x4 Float4x4::makeProjection(const Rect& frustum, float zNear
     result.col[0].x = 2.f * ooXDenom;
     result.col[2].x = (frustum.mins.x + frustum.maxs.x) * ooXDenom;
     result.col[1].y = 2.f * ooYDenom;
-    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooXDenom;
+    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooYDenom;
     result.col[2].z = (zNear + zFar) * ooZDenom;
     result.col[2].w = -1.f;
     result.col[3].z = (2 * zNear * zFar) * ooZDenom;
-- 
2.43.0


From c54d3de82d0cf3f01893e2b18b1735c99d011bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 072/149] fix: Box::full contains every point

---
 repos/plywood/src/math/math/ply-math/Box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index cfacd94..84b883b 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -170,7 +170,7 @@ struct Box {
     }
 
     static Box full() {
-        return {V{Limits<T>::Min}, V{Limits<T>::Min}};
+        return {V{Limits<T>::Min}, V{Limits<T>::Max}};
     }
 };
 
-- 
2.43.0


From 0103eff826c88ef542a3ed5f456b34cd811369ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 073/149] fix: ScalePos2::makeTranslation doesn't scale

---
 repos/plywood/src/math/math/ply-math/QuatPos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/QuatPos.h b/repos/plywood/src/math/math/ply-math/QuatPos.h
index bf9d301..c95a925 100644
--- a/repos/plywood/src/math/math/ply-math/QuatPos.h
+++ b/repos/plywood/src/math/math/ply-math/QuatPos.h
@@ -31,7 +31,7 @@ struct ScalePos2 {
     }
 
     static ScalePos2 makeTranslation(const Float2& pos) {
-        return {{0, 0}, pos};
+        return {{1, 1}, pos};
     }
 
     static ScalePos2 mapToRect(const Rect& r) {
-- 
2.43.0


From 2cf0bec4b2259708904a88c341884e286a24cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:43 +0000
Subject: [PATCH 074/149] fix: AxisRotPos::toFloat4x4 includes the translation

---
 repos/plywood/src/math/math/ply-math/AxisVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/AxisVector.h b/repos/plywood/src/math/math/ply-math/AxisVector.h
index f4cb51a..9d8de94 100644
--- a/repos/plywood/src/math/math/ply-math/AxisVector.h
+++ b/repos/plywood/src/math/math/ply-math/AxisVector.h
@@ -299,7 +299,7 @@ struct AxisRotPos {
     }
 
     Float4x4 toFloat4x4() const {
-        return Float4x4{rot.toFloat3x3()};
+        return Float4x4{rot.toFloat3x3(), pos};
     }
 };
 
-- 
2.43.0


From f96cdbf4e43b82b7417037613340b800576894e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:19 +0000
Subject: [PATCH 075/149] fix: make the Pylon parser report malformed text
 instead of crashing or hanging

Text that ends in a literal made the parser loop forever, every syntax error
dereferenced a null node, an unterminated key or trailing string hit an
assertion, byte 0xFF was taken for the end of the file, \xHH escapes written
by pylon::write were not readable, and copied objects compared keys without
their items.
---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp  |  2 +-
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 66 +++++++++++++------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index cebd874..a0b2da6 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -54,7 +54,7 @@ Owned<Node> Node::copy() const {
                 Object::Item& dstItem = dst->object_.items[i];
                 dstItem.key = this->object_.items[i].key.view();
                 dstItem.value = this->object_.items[i].value->copy();
-                *dst->object_.index.insertOrFind(dstItem.key) = i;
+                *dst->object_.index.insertOrFind(dstItem.key, &dst->object_.items) = i;
             }
             return dst;
         }
diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..40afbbc 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -8,7 +8,7 @@
 
 namespace pylon {
 
-bool isAlnumUnit(u32 c) {
+bool isAlnumUnit(s32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
            (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
 }
@@ -51,12 +51,10 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 }
 
 void Parser::advanceChar() {
-    if (readOfs + 1 < srcView.numBytes) {
+    if (readOfs < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
-    } else {
-        nextUnit = -1;
     }
+    nextUnit = (readOfs < srcView.numBytes) ? (u8) srcView.bytes[readOfs] : -1;
 }
 
 Parser::Token Parser::readPlainToken(Token::Type type) {
@@ -66,8 +64,24 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    u32 value = 0;
+    for (u32 i = 0; i < 2; i++) {
+        u32 digit = 0;
+        if (nextUnit >= '0' && nextUnit <= '9') {
+            digit = nextUnit - '0';
+        } else if (nextUnit >= 'a' && nextUnit <= 'f') {
+            digit = nextUnit - 'a' + 10;
+        } else if (nextUnit >= 'A' && nextUnit <= 'F') {
+            digit = nextUnit - 'A' + 10;
+        } else {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        value = value * 16 + digit;
+        advanceChar();
+    }
+    NativeEndianWriter{outs}.write((u8) value);
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
@@ -353,6 +367,8 @@ Owned<Node> Parser::readObject(const Token& startToken) {
         }
     breakOuter:
 
+        if (!firstToken.isValid())
+            return Node::createInvalid(); // error was already reported
         if (firstToken.type == Token::Text) {
             if (prevProperty.isValid() && !gotSeparator) {
                 error(firstToken.fileOfs,
@@ -360,17 +376,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -379,15 +395,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
+        if (!colon.isValid())
+            return Node::createInvalid(); // error was already reported
         if (colon.type != Token::Colon && colon.type != Token::Equals) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -402,9 +420,11 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             node->set(std::move(firstToken.text), std::move(value));
         }
 
-        prevProperty = std::move(firstToken);
+        // The property's text now belongs to the object
+        prevProperty = {firstToken.type, firstToken.fileOfs,
+                        node->object().items.back().key.view()};
     }
-    return {};
+    return Node::createInvalid();
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -451,7 +471,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -460,27 +480,31 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    readOfs = 0;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
+    anyError_ = false;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {Node::createInvalid(), std::move(this->fileLocMap)};
 
     Token nextToken = readToken();
     if (nextToken.type != Token::EndOfFile) {
-        error(nextToken.fileOfs,
-              String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        if (nextToken.isValid()) {
+            error(nextToken.fileOfs,
+                  String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
+        }
+        return {Node::createInvalid(), std::move(this->fileLocMap)};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From 616414723825bd22898a4911bede1398bf768c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 076/149] fix: let copied Pylon nodes own the text their
 originals own

A copy viewed the original's strings and dangled once the original was gone.
---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index a0b2da6..7f00511 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -35,7 +35,7 @@ PLY_NO_INLINE Node::~Node() {
 Owned<Node> Node::copy() const {
     switch ((Type) this->type) {
         case Type::Text: {
-            return createText(this->text_.view(), this->fileOfs);
+            return createText(HybridString{this->text_}, this->fileOfs);
         }
 
         case Type::Array: {
@@ -52,7 +52,7 @@ Owned<Node> Node::copy() const {
             dst->object_.items.resize(this->object_.items.numItems());
             for (u32 i = 0; i < this->object_.items.numItems(); i++) {
                 Object::Item& dstItem = dst->object_.items[i];
-                dstItem.key = this->object_.items[i].key.view();
+                dstItem.key = this->object_.items[i].key;
                 dstItem.value = this->object_.items[i].value->copy();
                 *dst->object_.index.insertOrFind(dstItem.key, &dst->object_.items) = i;
             }
-- 
2.43.0


From 87c2510bd1fc9a4420870e0e515b87f3e6c645f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:30 +0000
Subject: [PATCH 077/149] fix: reading a saved switch uses the format of the
 saved state

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3a05667..026d720 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -902,7 +902,7 @@ TypeKey TypeKey_Switch{
             newTypedState.construct();
         }
         newTypedState.type->typeKey->read(newTypedState, context,
-                                          switchFormat->states[newID].structFormat);
+                                          switchFormat->states[formatStateID].structFormat);
     },
     // hashDescriptor
     nullptr, // Unimplemented
-- 
2.43.0


From ff4d2fb820e886d64d3780f30177e11a31ef4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:30 +0000
Subject: [PATCH 078/149] fix: links between saved objects are numbered in the
 order of the link table

---
 .../ply-reflect/PersistWriteObject.cpp        | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index eff4a45..ce22346 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -19,25 +19,39 @@ void writeObject(AnyObject obj, WriteObjectContext* writeObjectContext) {
 
 void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
                                    SavedPtrResolver* ptrResolver) {
-    u32 linkIndex = 0;
+    // Find the owned objects that are pointed to
     for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
-        PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
         auto cursor =
             ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
         if (cursor.wasFound()) {
             SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr = ptrResolver->savedOwnedPtrs[*cursor];
             PLY_ASSERT(savedOwnedPtr.obj == weakInfo.obj); // Sanity check
-            if (savedOwnedPtr.linkIndex < 0) {
-                savedOwnedPtr.linkIndex = linkIndex;
-                linkIndex++;
-            }
-            // Note: This performs a potentially unaligned write
-            *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = savedOwnedPtr.linkIndex;
+            savedOwnedPtr.linkIndex = 0;
         } else {
             PLY_ASSERT(0); // FIXME: Handle unresolved pointers gracefully
         }
     }
 
+    // Number them in the order they were saved, which is the order of the link table
+    u32 linkIndex = 0;
+    for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
+        if (savedOwnedPtr.linkIndex >= 0) {
+            savedOwnedPtr.linkIndex = linkIndex;
+            linkIndex++;
+        }
+    }
+
+    for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
+        PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
+        auto cursor =
+            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
+        if (cursor.wasFound()) {
+            // Note: This performs a potentially unaligned write
+            *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) =
+                ptrResolver->savedOwnedPtrs[*cursor].linkIndex;
+        }
+    }
+
     // Write link table
     NativeEndianWriter out{outs};
     out.write(linkIndex); // Number of linkable Owned pointers
-- 
2.43.0


From 2808dd46e65f091123524cfef74431101a67ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 079/149] fix: importing over an owned or saved object destroys
 the old object once, before its type

---
 repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp | 4 +++-
 repos/plywood/src/reflect/ply-reflect/AnySavedObject.h   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
index d41d7d3..2e4c543 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
@@ -210,8 +210,9 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
         PLY_ASSERT(aNode->isObject());
         TypeDescriptorOwner* targetTypeOwner = convertTypeFrom(aNode->get("type"), typeFromName);
         AnySavedObject* savedTypedPtr = (AnySavedObject*) obj.data;
-        savedTypedPtr->typeOwner = targetTypeOwner;
+        // The old object is destroyed here, before its type
         savedTypedPtr->owned = AnyObject::create(targetTypeOwner->getRootType());
+        savedTypedPtr->typeOwner = targetTypeOwner;
         convertFrom(savedTypedPtr->owned, aNode->get("value"), typeFromName);
     } else if (obj.type->typeKey == &TypeKey_TypedArray) {
         PLY_ASSERT(aNode->isObject());
@@ -247,6 +248,7 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject created = AnyObject::create(ownedDesc->targetType);
+        AnyObject{*(void**) obj.data, ownedDesc->targetType}.destroy();
         *(void**) obj.data = created.data;
         convertFrom(created, aNode, typeFromName);
     } else {
diff --git a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
index 0f5baba..c0f78e7 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
+++ b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
@@ -23,7 +23,7 @@ struct AnySavedObject {
     ~AnySavedObject() {
         // Need to destroy the AnyOwnedObject first, since it uses a TypeDescriptor that's owned
         // by the TypeDescriptorOwner.
-        owned.destroy();
+        owned = AnyOwnedObject{};
     }
 
     AnySavedObject& operator=(AnySavedObject&&) = default;
-- 
2.43.0


From 5914542ea50dca166090ffc2cd3671494ef070dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 080/149] fix: destructing an array through reflection frees
 its storage

---
 .../src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
index d881825..7596f3e 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
@@ -35,7 +35,7 @@ NativeBindings& getNativeBindings_Array() {
                 itemType->bindings.destruct({item, itemType});
                 item = PLY_PTR_OFFSET(item, itemSize);
             }
-            arr->~BaseArray();
+            arr->free();
         },
         // move
         [](AnyObject dst, AnyObject src) {
-- 
2.43.0


From b0be7d73c3492fdbf4a30b4d297e2ce716f6e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 081/149] fix: a TypedArray frees its items when destroyed or
 assigned

---
 repos/plywood/src/reflect/ply-reflect/TypedArray.cpp | 1 +
 repos/plywood/src/reflect/ply-reflect/TypedArray.h   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp b/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
index e39e4a9..493199b 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypedArray.cpp
@@ -68,6 +68,7 @@ PLY_NO_INLINE void TypedArray::assign(TypeDescriptorOwner* typeOwner, void* item
     if (m_array.m_numItems > 0) {
         view().destruct();
     }
+    PLY_HEAP.free(m_array.m_items);
     m_typeOwner = typeOwner;
     m_array.m_items = items;
     m_array.m_numItems = numItems;
diff --git a/repos/plywood/src/reflect/ply-reflect/TypedArray.h b/repos/plywood/src/reflect/ply-reflect/TypedArray.h
index 7641d81..f2052a2 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypedArray.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypedArray.h
@@ -53,6 +53,10 @@ public:
     details::BaseArray m_array;
     Reference<TypeDescriptorOwner> m_typeOwner = TypeOwnerResolver<EmptyType>::get();
 
+    PLY_INLINE TypedArray() = default;
+    PLY_INLINE ~TypedArray() {
+        destroy();
+    }
     PLY_INLINE TypedArrayView view() {
         return {m_array.m_items, m_array.m_numItems, m_typeOwner};
     }
-- 
2.43.0


From 3ef7dad2786aa018ede7bd75c7edee0f53191cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:13 +0000
Subject: [PATCH 082/149] fix: TypeDescriptorOwner destructs the types it owns

---
 repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
index fd71063..689ac96 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
@@ -123,6 +123,8 @@ struct TypeDescriptor {
     // by PLY_STRUCT_BEGIN. The only TypeDescriptors that ever get destroyed are ones that are
     // synthesized at runtime. The lifetime of those TypeDescriptors is managed by a
     // TypeDescriptorOwner, which knows how to correctly destruct them.
+    virtual ~TypeDescriptor() {
+    }
     template <class T>
     T* cast() {
         PLY_ASSERT(typeKey == T::typeKey);
-- 
2.43.0


From 6f1dba95e3a448086f80e42aca605e30844ed821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 083/149] fix: Markdown markers followed by a blank line, and
 block quotes after a paragraph

---
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 327956e..b8cf251 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -201,6 +201,8 @@ struct Parser {
         while (lc.vins.numBytesAvailable() > 0) {
             if (lc.innerIndent() >= 4)
                 break;
+            if (lc.trimmedRemainder().isEmpty())
+                break; // Nothing after the last marker
 
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
@@ -238,9 +240,10 @@ struct Parser {
             };
 
             char c = *lc.vins.curByte;
-            PLY_ASSERT(!isWhite(c));
             if (c == '>') {
                 // Begin a new blockquote
+                this->leafNode = nullptr;
+                this->numBlankLinesInCodeBlock = 0;
                 this->blockNodes.append(new Node{this->blockNodes.back(), Node::BlockQuote});
                 // Consume optional space after '>'
                 lc.vins.advanceByte();
-- 
2.43.0


From 9fcede40c52c1deb6096eda12c8eff38764807a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 084/149] fix: nested Markdown lists belong to the list item
 that contains them

---
 .../src/web/markdown/web-markdown/ParseMarkdown.cpp        | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index b8cf251..8ecbc26 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -206,6 +206,7 @@ struct Parser {
 
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
+            u32 parentIndent = lc.outerIndent;
 
             // This code block will handle any list markers encountered:
             auto gotListMarker = [&](s32 markerNumber, char punc) {
@@ -223,10 +224,6 @@ struct Parser {
                         // Add item to existing list
                         listNode = potentialParent;
                     }
-                } else if (parentCtr->type == Node::ListItem) {
-                    // Begin new list as a sublist of existing list
-                    parentCtr = parentCtr->parent;
-                    PLY_ASSERT(parentCtr->type == Node::List);
                 }
                 if (!listNode) {
                     // Begin new list
@@ -235,7 +232,7 @@ struct Parser {
                     listNode->listPunc = punc;
                 }
                 Node* listItem = new Node{listNode, Node::ListItem};
-                listItem->indentOrLevel = lc.outerIndent;
+                listItem->indentOrLevel = lc.outerIndent - parentIndent;
                 this->blockNodes.append(listItem);
             };
 
-- 
2.43.0


From 88a6279e803a9c659d83cd89040a029f93eb1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 085/149] fix: empty Markdown headings and list items

---
 .../plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp  | 5 +++--
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
index 5e55085..b6ca7fd 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
@@ -39,8 +39,9 @@ void convertToHTML(OutStream* outs, const Node* node, const HTMLOptions& options
         }
         case Node::ListItem: {
             *outs << "<li>";
-            if (!node->parent->isLoose && node->children[0]->type == Node::Paragraph) {
-                // Don't output a newline before the paragraph in a tight list.
+            if (node->children.isEmpty() ||
+                (!node->parent->isLoose && node->children[0]->type == Node::Paragraph)) {
+                // Don't output a newline in an empty item or before the paragraph in a tight list.
             } else {
                 *outs << "\n";
             }
diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 8ecbc26..3591751 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -771,7 +771,7 @@ static PLY_NO_INLINE void doInlines(Node* node) {
         }
     } else {
         PLY_ASSERT(node->isLeafBlock());
-        if (node->type != Node::CodeBlock) {
+        if (node->type != Node::CodeBlock && !node->rawLines.isEmpty()) {
             node->addChildren(expandInlineElements(node->rawLines));
             node->rawLines.clear();
         }
-- 
2.43.0


From 7525b83abbb5dc6050885819ea336258e736301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 086/149] fix: Markdown underscore emphasis around star
 emphasis

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 3591751..5b48c2c 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -637,7 +637,7 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                     delimiters.insert(j) = std::move(elem);
                     pos = j;
                     starOpener = min(starOpener, pos + 1);
-                    underscoreOpener = min(starOpener, pos + 1);
+                    underscoreOpener = min(underscoreOpener, pos + 1);
                     return;
                 }
             }
-- 
2.43.0


From a75142139868e3fd6a491790086e7628661f54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 087/149] fix: escaped characters in Markdown link destinations

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 5b48c2c..43a66d1 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -550,6 +550,7 @@ Tuple<bool, String> parseLinkDestination(InlineConsumer& ic) {
             if (!isAscPunc(c)) {
                 mout << '\\';
             }
+            ic.i++;
             mout << c;
         } else if (c == '(') {
             ic.i++;
-- 
2.43.0


From cc75c1caaa74f89dc79ca9b327386a35b538b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 088/149] fix: Markdown links don't contain other links

---
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 43a66d1..1d66074 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -754,6 +754,12 @@ Array<Owned<Node>> expandInlineElements(ArrayView<const String> rawLines) {
             elem->text = std::move(linkDest.second);
             elem->addChildren(processEmphasis(delimiters, openLink + 1));
             delimiters.resize(openLink);
+            // Links can't contain other links
+            for (Delimiter& delim : delimiters) {
+                if (delim.type == Delimiter::OpenLink) {
+                    delim.type = Delimiter::RawText;
+                }
+            }
             delimiters.append(std::move(elem));
             flushedIndex = ic.i;
         } else {
-- 
2.43.0


From 3646790cce3a811ab2c2f952217b1bc33b4761a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 089/149] fix: Markdown lists of any kind can follow a code
 block

---
 .../src/web/markdown/web-markdown/ParseMarkdown.cpp    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 1d66074..8f611fe 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -89,6 +89,10 @@ struct Parser {
     // bit. Sticking with this approach for now.)
     bool checkListContinuations = false;
 
+    PLY_INLINE bool isInParagraph() const {
+        return this->leafNode && this->leafNode->type == Node::Paragraph;
+    }
+
     // This is called at the start of each line. It figures out which of the existing elements we
     // are still inside by consuming indentation and blockquote '>' markers that match the current
     // element stack, then truncates any unmatched BlockQuote nodes from the stack. (Unmatched
@@ -255,7 +259,7 @@ struct Parser {
                 u32 indentAfterStar = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (this->isInParagraph() && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
@@ -265,7 +269,7 @@ struct Parser {
                 gotListMarker(-1, c);
             } else if (isDecimalDigit(c)) {
                 u64 num = lc.vins.parse<u64>();
-                if (this->leafNode && num != 1) {
+                if (this->isInParagraph() && num != 1) {
                     // If list item interrupts a paragraph, the start number must be 1.
                     goto notMarker;
                 }
@@ -285,7 +289,7 @@ struct Parser {
                 u32 indentAfterMarker = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (this->isInParagraph() && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
-- 
2.43.0


From e6feb6a355e4df388a7e804fc1f5af6d6aae7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 090/149] fix: a blank line makes only the Markdown list loose
 that directly contains it

---
 .../markdown/web-markdown/ParseMarkdown.cpp   | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 8f611fe..ba39987 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -170,17 +170,17 @@ struct Parser {
                 } else {
                     this->numBlankLinesInCodeBlock++;
                 }
-            } else {
-                // There's no leaf node and the remainder of the line is blank.
-                // Walk the stack and set the "isLooseIfContinued" flag on all Lists.
-                for (Node* node : this->blockNodes) {
-                    if (node->type == Node::ListItem) {
-                        PLY_ASSERT(node->parent->type == Node::List);
-                        if (!node->parent->isLoose) {
-                            node->parent->isLooseIfContinued = true;
-                            this->checkListContinuations = true;
-                        }
-                    }
+            }
+            // The remainder of the line is blank. Walk the stack and set the "isLooseIfContinued"
+            // flag on all Lists, except those that contain the innermost blockquote.
+            for (u32 i = this->blockNodes.numItems(); i > 0; i--) {
+                Node* node = this->blockNodes[i - 1];
+                if (node->type == Node::BlockQuote)
+                    break;
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    node->parent->isLooseIfContinued = true;
+                    this->checkListContinuations = true;
                 }
             }
             return false;
@@ -316,7 +316,26 @@ struct Parser {
 
     PLY_NO_INLINE void parseParagraphText(StringView line, LineConsumer& lc) {
         StringView remainingText = lc.trimmedRemainder();
-        bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
+        bool hasPara = this->isInParagraph();
+        if (remainingText && this->checkListContinuations) {
+            // We're going to create or extend a leaf node after a blank line. Unless that's in the
+            // middle of a code block, the innermost List that was continued is loose:
+            bool markLoose = !(this->leafNode && lc.innerIndent() >= 4);
+            for (u32 i = this->blockNodes.numItems(); i > 0; i--) {
+                Node* node = this->blockNodes[i - 1];
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    if (node->parent->isLooseIfContinued) {
+                        if (markLoose) {
+                            node->parent->isLoose = true;
+                            markLoose = false;
+                        }
+                        node->parent->isLooseIfContinued = false;
+                    }
+                }
+            }
+            this->checkListContinuations = false;
+        }
         if (!hasPara && lc.innerIndent() >= 4) {
             // Potentially begin or append to code Node
             if (remainingText && !this->leafNode) {
@@ -335,24 +354,6 @@ struct Parser {
             }
         } else {
             if (remainingText) {
-                // We're going to create or extend a leaf node.
-                // First, check if any Lists should be marked loose:
-                if (this->checkListContinuations) {
-                    // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
-                    // leaf node to exist at this point:
-                    PLY_ASSERT(!this->leafNode);
-                    for (Node* node : this->blockNodes) {
-                        if (node->type == Node::ListItem) {
-                            PLY_ASSERT(node->parent->type == Node::List);
-                            if (node->parent->isLooseIfContinued) {
-                                node->parent->isLoose = true;
-                                node->parent->isLooseIfContinued = false;
-                            }
-                        }
-                    }
-                    this->checkListContinuations = false;
-                }
-
                 if (*lc.vins.curByte == '#' && lc.innerIndent() <= 3) {
                     // Attempt to parse a heading
                     auto savePoint = lc.vins.savePoint();
-- 
2.43.0


From a9748edba75ed10cb2ad4eb1ee239c7c582bc746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 091/149] fix: a Markdown heading after a code block forgets
 the block's blank lines

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index ba39987..5552dae 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -369,6 +369,7 @@ struct Parser {
                             headingNode->rawLines.append(remainingText);
                         }
                         this->leafNode = nullptr;
+                        this->numBlankLinesInCodeBlock = 0;
                         return;
                     }
                     lc.vins.restore(savePoint);
-- 
2.43.0


From 93f967e6c169aaeb75b73c6a0362dfc42f7b5675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:54 +0000
Subject: [PATCH 092/149] fix: a blank line before a list item without text
 makes the Markdown list loose

---
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 5552dae..8cb7e67 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -317,9 +317,9 @@ struct Parser {
     PLY_NO_INLINE void parseParagraphText(StringView line, LineConsumer& lc) {
         StringView remainingText = lc.trimmedRemainder();
         bool hasPara = this->isInParagraph();
-        if (remainingText && this->checkListContinuations) {
-            // We're going to create or extend a leaf node after a blank line. Unless that's in the
-            // middle of a code block, the innermost List that was continued is loose:
+        if (this->checkListContinuations) {
+            // This is the first block after a blank line. Unless it continues a code block, the
+            // innermost List that was continued is loose:
             bool markLoose = !(this->leafNode && lc.innerIndent() >= 4);
             for (u32 i = this->blockNodes.numItems(); i > 0; i--) {
                 Node* node = this->blockNodes[i - 1];
-- 
2.43.0


From cc9ae47bb0dda376e699c12cb61431fe8d084068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 093/149] fix: let an unmatched emphasis run between letters
 open emphasis in Markdown

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 8cb7e67..802b318 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -648,8 +648,8 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                     return;
                 }
             }
-            // None found
-            openerPos = pos + 1;
+            // None found. This run can still serve as an opener itself.
+            openerPos = pos;
         };
         if (delimiters[pos].type == Delimiter::Stars && delimiters[pos].rightFlanking) {
             handleCloser(Delimiter::Stars, starOpener);
-- 
2.43.0


From 012ba7da811b6e1a4d22601aac0363cc8e09af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 094/149] fix: a numeric literal 0 doesn't swallow a following
 sign when tokenizing C++

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index bc50da7..a768d33 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -113,12 +113,16 @@ PLY_NO_INLINE StringView PPVisitedFiles::getContents(u32 includeChainIndex) cons
 
 void readNumericLiteral(ViewInStream* vins) {
     if (vins->tryMakeBytesAvailable() && (vins->peekByte() == '0')) {
+        auto savePoint = vins->savePoint();
         vins->advanceByte();
         if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'x')) {
             vins->advanceByte();
             vins->parse<u64>(fmt::Radix{16});
             goto suffix;
         }
+        // Not a hexadecimal literal. Parse it from the start, so that a sign following the 0 isn't
+        // taken as part of the literal.
+        vins->restore(savePoint);
     }
     vins->parse<double>();
 suffix:
-- 
2.43.0


From c3b14e63278dba4da0ad995c9c89d784f81bdd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 095/149] fix: recognize the end of raw string literals when
 tokenizing C++, and recover when there is none

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index a768d33..9abb022 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -351,7 +351,7 @@ bool readDelimiterAndRawStringLiteral(ViewInStream* vins, Preprocessor* pp,
         }
         char c = vins->peekByte();
         vins->advanceByte();
-        if (c == ')') {
+        while (c == ')') {
             // Try to match delimiter
             const char* d = delimiterStart;
             for (;;) {
@@ -363,11 +363,12 @@ bool readDelimiterAndRawStringLiteral(ViewInStream* vins, Preprocessor* pp,
                         return false;
                     }
                     c = vins->peekByte();
+                    vins->advanceByte();
                     if (c == '"') {
                         // End of string literal
-                        vins->advanceByte();
                         return true;
                     }
+                    break; // No match here, but another closing parenthesis might follow
                 }
                 if (!vins->tryMakeBytesAvailable()) {
                     // End of file while matching delimiter
@@ -377,8 +378,8 @@ bool readDelimiterAndRawStringLiteral(ViewInStream* vins, Preprocessor* pp,
                 }
                 c = vins->peekByte();
                 vins->advanceByte();
-                if ((u8) c != *d)
-                    break; // No match here
+                if (c != *d)
+                    break; // No match here, but c might be another closing parenthesis
                 d++;
             }
         }
@@ -414,9 +415,9 @@ Token::Type readIdentifierOrLiteral(ViewInStream* vins, Preprocessor* pp,
         if (!match(c, mask)) {
             if (c == '"') {
                 if (vins->curByte == startByte + 1 && *startByte == 'R') {
-                    if (readDelimiterAndRawStringLiteral(vins, pp, beginTokenLoc)) {
-                        return Token::StringLiteral;
-                    }
+                    if (!readDelimiterAndRawStringLiteral(vins, pp, beginTokenLoc))
+                        return Token::Invalid;
+                    return Token::StringLiteral;
                 } else {
                     // Treat it as a string prefix
                     vins->advanceByte();
-- 
2.43.0


From bc6af7695de6ce9658354787d34fd8b5b6ecb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 096/149] fix: preprocessor directives that continue on the
 next line, or follow a null directive or comment

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 9abb022..2c73f66 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -155,8 +155,10 @@ void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
         if (!isWhite(c))
             break;
         vins->advanceByte();
-        if (c == '\n')
+        if (c == '\n') {
+            pp->atStartOfLine = true;
             return; // null directive
+        }
     }
 
     // Read directive
@@ -176,9 +178,8 @@ void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
         } else if (directive == "pragma" || directive == "if" || directive == "else" ||
                    directive == "elif" || directive == "endif" || directive == "ifdef" ||
                    directive == "ifndef" || directive == "error" || directive == "undef" ||
-                   directive == "import") {
-            vins->parse<fmt::Line>();
-        } else if (directive == "define") {
+                   directive == "import" || directive == "define") {
+            // These directives can continue on the next line
             bool escaping = false;
             while (vins->tryMakeBytesAvailable()) {
                 char c = vins->peekByte();
@@ -526,6 +527,7 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
                         item->vins.advanceByte();
                         if (fmt::scanUpToAndIncludingSpecial(&item->vins, "*/")) {
                             token.type = Token::CStyleComment;
+                            pp->atStartOfLine = wasAtStartOfLine;
                             goto gotToken;
                         } else {
                             // EOF in comment
-- 
2.43.0


From 7e09c61669f6dca76f3b3685a0852d6477a96b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:15 +0000
Subject: [PATCH 097/149] fix: don't expand a C++ macro again inside its own
 expansion

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 2c73f66..f2b2fd6 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -443,6 +443,17 @@ Token::Type readIdentifierOrLiteral(ViewInStream* vins, Preprocessor* pp,
     }
 }
 
+// A macro is not expanded again inside its own expansion
+PLY_NO_INLINE bool isBeingExpanded(const Preprocessor* pp, u32 expansionIdx) {
+    for (const Preprocessor::StackItem& item : pp->stack) {
+        const PPVisitedFiles::IncludeChain& chain =
+            pp->visitedFiles->includeChains[item.includeChainIdx];
+        if (chain.isMacroExpansion && chain.fileOrExpIdx == expansionIdx)
+            return true;
+    }
+    return false;
+}
+
 PLY_NO_INLINE Token readToken(Preprocessor* pp) {
     Preprocessor::StackItem* item = nullptr;
     Token token;
@@ -806,7 +817,7 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
                 token.identifier = item->vins.getViewFrom(savePoint);
                 PLY_ASSERT(token.identifier);
                 auto cursor = pp->macros.find(token.identifier);
-                if (cursor.wasFound()) {
+                if (cursor.wasFound() && !isBeingExpanded(pp, cursor->expansionIdx)) {
                     token.type = Token::Macro;
                     token.identifier = item->vins.getViewFrom(savePoint);
 
-- 
2.43.0


From d2f3a1773ea786f353d4df546ecf53a0d6ca7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 098/149] fix: parse a single expression after > in C++
 expressions

---
 repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
index b87a0dc..3ee26ac 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
@@ -237,10 +237,10 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
         case Token::CloseAngle: {
             if (parser->pp->tokenizeCloseAnglesOnly) {
                 pushBackToken(parser, token);
-                break;
             } else {
                 endToken = parseExpression(parser).second;
             }
+            break;
         };
 
         case Token::SingleVerticalBar:
-- 
2.43.0


From a979456d518c8ad4394dc0a1f47af79f3a8e7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 099/149] fix: give parenthesized C++ expressions an end token

---
 repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
index 3ee26ac..23d2c39 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
@@ -147,6 +147,9 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
                 // FIXME: This should only be done if the inner expression identifies a type!
                 // Otherwise, it's just a parenthesized expression:
                 endToken = parseExpression(parser, true).second;
+                if (!endToken.isValid()) {
+                    endToken = token2; // It's just a parenthesized expression
+                }
             } else {
                 // expected ) after expression
                 pushBackToken(parser, token2);
-- 
2.43.0


From 7f92ed67a4c4f445bf76029a6bbcdf467c4dfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 100/149] fix: cpp::parse doesn't crash when there are errors
 but no supervisor

---
 repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
index 2584b95..b0f54be 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
@@ -54,7 +54,7 @@ grammar::TranslationUnit parse(String&& sourceCode, PPVisitedFiles* visitedFiles
     ParseSupervisor emptyVisor;
     parser.visor = visor ? visor : &emptyVisor;
 
-    pp.errorHandler = [&](Owned<BaseError>&& err) { visor->handleError(std::move(err)); };
+    pp.errorHandler = [&](Owned<BaseError>&& err) { parser.visor->handleError(std::move(err)); };
 
     // Do parse
     grammar::TranslationUnit tu = parseTranslationUnit(&parser);
-- 
2.43.0


From ad5b183c4592cfed35cdf66d0481e0b5d7bfe3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:44 +0000
Subject: [PATCH 101/149] fix: the end token of C++ expressions that are
 qualified names

---
 .../plywood/src/cpp/ply-cpp/ParseExpressions.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
index 23d2c39..61af8b2 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
@@ -9,7 +9,9 @@
 namespace ply {
 namespace cpp {
 
-void consumeSpecifier(Parser* parser) {
+// Returns the last token consumed
+Token consumeSpecifier(Parser* parser, const Token& startToken) {
+    Token endToken = startToken;
     for (;;) {
         Token token = readToken(parser);
         if (token.type == Token::OpenAngle) {
@@ -18,7 +20,9 @@ void consumeSpecifier(Parser* parser) {
             // FIXME: This needs to handle "Tmpl<(2 > 1)>" and ""Tmpl<(2 >> 1)>"
             PLY_SET_IN_SCOPE(parser->pp->tokenizeCloseAnglesOnly, true);
             Token closeToken;
-            skipAnyScope(parser, &closeToken, token);
+            if (skipAnyScope(parser, &closeToken, token)) {
+                endToken = closeToken;
+            }
             token = readToken(parser);
         }
         if (token.type == Token::DoubleColon) {
@@ -27,11 +31,12 @@ void consumeSpecifier(Parser* parser) {
                 // expected identifier after ::
                 parser->error(true, {ParseError::Expected, specToken, ExpectedToken::Identifier});
                 pushBackToken(parser, specToken);
-                return;
+                return endToken;
             }
+            endToken = specToken;
         } else {
             pushBackToken(parser, token);
-            return;
+            return endToken;
         }
     }
 }
@@ -53,7 +58,7 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
     switch (startToken.type) {
         case Token::Identifier: {
             // FIXME: This should use parseQualifiedID instead
-            consumeSpecifier(parser);
+            endToken = consumeSpecifier(parser, startToken);
             Token token2 = readToken(parser);
             if (token2.type == Token::OpenParen) {
                 // Function arguments
@@ -112,7 +117,6 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
                 }
             } else {
                 // Can't consume any more of expression
-                endToken = startToken;
                 pushBackToken(parser, token2);
             }
             break;
-- 
2.43.0


From c1f3dba666bf7d733d98d4faf01df5eb773c8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:13 +0000
Subject: [PATCH 102/149] fix: the comma of C++ base specifiers is the comma

---
 repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 80a5619..9513d07 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -629,7 +629,7 @@ Array<grammar::BaseSpecifierWithComma> parseBaseSpecifierList(Parser* parser) {
             pushBackToken(parser, puncToken);
             break;
         } else if (puncToken.type == Token::Comma) {
-            addedBS.comma = token;
+            addedBS.comma = puncToken;
         } else {
             parser->error(true, {ParseError::Expected, puncToken, ExpectedToken::CommaOrOpenCurly});
             break;
-- 
2.43.0


From 46fcc0bd63ecc63d8e71470a6a508b2aad471836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:14 +0000
Subject: [PATCH 103/149] fix: C++ template arguments that start with a
 parenthesis no longer hang or crash the parser

---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h           | 6 +++---
 repos/plywood/src/cpp/ply-cpp/ParseParameterList.cpp        | 3 ++-
 .../src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp       | 2 +-
 repos/plywood/src/cpp/ply-cpp/RestorePoint.h                | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
index b8bc012..c6ddb21 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
@@ -56,9 +56,9 @@ struct ParseActivity {
     }
 
     bool anyTokensConsumed() const {
-        if (this->parser->tokenQueue.isEmpty())
-            return false;
-        return this->parser->tokenQueue[0].linearLoc == this->savedTokenLoc;
+        Token token = readToken(this->parser);
+        pushBackToken(this->parser, token);
+        return token.linearLoc != this->savedTokenLoc;
     }
 };
 
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseParameterList.cpp b/repos/plywood/src/cpp/ply-cpp/ParseParameterList.cpp
index 9f9b4e4..ef659f4 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseParameterList.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseParameterList.cpp
@@ -67,6 +67,7 @@ PLY_NO_INLINE void parseParameterDeclarationList(Parser* parser,
         } else if (forTemplate && expectedLoc.identifier == "template") {
             // template template parameter
             // FIXME: Extend the grammar and store the result in params
+            anyTokensConsumed = true;
             grammar::Declaration::Template_ tmpl;
             tmpl.keyword = expectedLoc;
             Token token2 = readToken(parser);
@@ -136,7 +137,7 @@ PLY_NO_INLINE void parseParameterDeclarationList(Parser* parser,
             parser->error(true, {ParseError::Expected, token,
                                  forTemplate ? ExpectedToken::CommaOrCloseAngle
                                              : ExpectedToken::CommaOrCloseParen});
-            if (anyTokensConsumed) {
+            if (!anyTokensConsumed) {
                 if (!handleUnexpectedToken(parser, nullptr, token))
                     break;
             } else {
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 9513d07..b928124 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -115,7 +115,7 @@ PLY_NO_INLINE bool closeScope(Parser* parser, Token* outCloseToken, const Token&
         // Consume tokens up to the closing )
         if (!skipAnyScope(parser, nullptr, openToken)) {
             // We didn't get a closing ), but an outer scope will handle it
-            PLY_ASSERT(parser->muteErrors);
+            PLY_ASSERT(parser->muteErrors || parser->restorePointEnabled);
             return false;
         }
         // Got closing )
diff --git a/repos/plywood/src/cpp/ply-cpp/RestorePoint.h b/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
index 77a9455..7c97ae4 100644
--- a/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
+++ b/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
@@ -50,8 +50,8 @@ struct RestorePoint {
         PLY_ASSERT(this->parser);           // Must not have been canceled
         PLY_ASSERT(!this->errorOccurred()); // no errors occurred
         this->parser->restorePointEnabled = this->wasPreviouslyEnabled;
-        if (this->savedTokenQueuePos == 0) {
-            PLY_ASSERT(!this->wasPreviouslyEnabled);
+        if (!this->wasPreviouslyEnabled) {
+            PLY_ASSERT(this->savedTokenQueuePos == 0);
             this->parser->tokenQueue.erase(0, this->parser->tokenQueuePos);
             this->parser->tokenQueuePos = 0;
         }
-- 
2.43.0


From 83321f924134a20c12226b6e52d8d57bd32db279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 104/149] fix: TCP listeners queue more than one connection, so
 bursts of clients aren't reset

---
 .../src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp       | 2 +-
 .../src/runtime/ply-runtime/network/impl/Socket_Winsock.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index ee0fb69..3f03d42 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -172,7 +172,7 @@ PLY_NO_INLINE TCPListener_POSIX Socket_POSIX::bindTCP(u16 port) {
 
     rc = bind(listenSocket, (struct sockaddr*) &serverAddr, serverAddrLen);
     if (rc == 0) {
-        rc = listen(listenSocket, 1);
+        rc = listen(listenSocket, SOMAXCONN);
         if (rc == 0) {
             Socket_POSIX::lastResult_.store(IPResult::OK);
             return TCPListener_POSIX{listenSocket};
diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_Winsock.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_Winsock.cpp
index 6230077..48933d3 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_Winsock.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_Winsock.cpp
@@ -150,7 +150,7 @@ PLY_NO_INLINE TCPListener_Winsock Socket_Winsock::bindTCP(u16 port) {
 
     rc = bind(listenSocket, (struct sockaddr*) &serverAddr, serverAddrLen);
     if (rc == 0) {
-        rc = listen(listenSocket, 1);
+        rc = listen(listenSocket, SOMAXCONN);
         if (rc == 0) {
             Socket_Winsock::lastResult_.store(IPResult::OK);
             return TCPListener_Winsock{listenSocket};
-- 
2.43.0


From 280648ce7eb3e87bb3ffecbed52a1fce714a90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 105/149] fix: OutPipe_HTTPChunked destroys the stream it owns

---
 repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp b/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
index b65a7d8..acfe919 100644
--- a/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
+++ b/repos/plywood/src/web/common/web-common/OutPipe_HTTPChunked.cpp
@@ -13,6 +13,7 @@ PLY_NO_INLINE void OutPipe_HTTPChunked_destroy(OutPipe* outPipe_) {
     // End of chunk stream
     *outPipe->outs << "0\r\n\r\n";
     outPipe->outs->flushMem();
+    destruct(outPipe->outs);
 }
 
 PLY_NO_INLINE bool OutPipe_HTTPChunked_write(OutPipe* outPipe_, StringView srcBuf) {
-- 
2.43.0


From 6c8d90a01e5a786b8e850a287e52ca9d2b5d5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 106/149] fix: the HTTP server survives failing to accept a
 connection

---
 repos/plywood/src/web/common/web-common/Server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/web/common/web-common/Server.cpp b/repos/plywood/src/web/common/web-common/Server.cpp
index 76c38f2..77f1b4a 100644
--- a/repos/plywood/src/web/common/web-common/Server.cpp
+++ b/repos/plywood/src/web/common/web-common/Server.cpp
@@ -175,6 +175,12 @@ bool runServer(u16 port, const RequestHandler& reqHandler) {
         ThreadParams params;
         params.tcpConn = listener.accept();
         // FIXME: Return if port stopped listening
+        if (!params.tcpConn) {
+            // Couldn't accept the connection; eg. there are too many open file descriptors.
+            // Try again later.
+            Thread::sleepMillis(10);
+            continue;
+        }
 
         params.reqHandler = reqHandler;
         // FIXME: Use a thread pool instead of spawning a thread for every request
-- 
2.43.0


From f04b43b257d09292a4db84545feb544980d195c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 107/149] fix: web paths that escape the served folder are not
 found

---
 .../src/web/common/web-common/FetchFromFileSystem.cpp  |  9 +++++++--
 repos/plywood/src/web/common/web-common/Response.h     |  8 ++++++++
 repos/plywood/src/web/common/web-common/SourceCode.cpp | 10 +++++++---
 .../web/serve-docs/ply-web-serve-docs/DocServer.cpp    |  2 +-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..066a2fa 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -49,8 +49,13 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    StringView relPath = requestPath.ltrim(NativePath::isSepByte);
+    if (!isInsideRootDir(relPath)) {
+        // don't serve files outside rootDir
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String nativePath = NativePath::join(params->rootDir, relPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
diff --git a/repos/plywood/src/web/common/web-common/Response.h b/repos/plywood/src/web/common/web-common/Response.h
index 08c025d..b57337f 100644
--- a/repos/plywood/src/web/common/web-common/Response.h
+++ b/repos/plywood/src/web/common/web-common/Response.h
@@ -46,6 +46,14 @@ struct ResponseIface {
     void respondGeneric(ResponseCode responseCode);
 };
 
+// Returns true if relPath, taken relative to some root folder, stays inside that folder.
+PLY_INLINE bool isInsideRootDir(StringView relPath) {
+    if (NativePath::isAbsolute(relPath) || NativePath::hasDriveLetter(relPath))
+        return false;
+    String normPath = NativePath::normalize(relPath);
+    return NativePath::splitFull(normPath)[0] != "..";
+}
+
 using RequestHandler = HiddenArgFunctor<void(StringView requestPath, ResponseIface* responseIface)>;
 
 } // namespace web
diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..6753d2f 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -10,9 +10,13 @@ namespace web {
 
 PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView requestPath,
                                      ResponseIface* responseIface) {
-    // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
-    // outside the rootDir
-    String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    StringView relPath = requestPath.ltrim(NativePath::isSepByte);
+    if (!isInsideRootDir(relPath)) {
+        // don't serve files outside rootDir
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String normRequestPath = NativePath::normalize(relPath);
     Owned<InStream> ins =
         FileSystem::native()
             ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..8bda32d 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -103,7 +103,7 @@ void DocServer::reloadContents() {
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
     FileSystem* fs = FileSystem::native();
-    if (NativePath::isAbsolute(requestPath)) {
+    if (!isInsideRootDir(requestPath)) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-- 
2.43.0


From 782d6e4c7a2e7ee4d8b939b17cf9054fca583785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 108/149] fix: static files with several dots in their names
 are served

---
 .../src/web/common/web-common/FetchFromFileSystem.cpp      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 066a2fa..92f599e 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -34,15 +34,14 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         requestPath = requestPath.subStr(0, getPos);
     }
 
-    String filename = NativePath::split(requestPath).second;
-    s32 dotPos = filename.findByte('.');
-    if (dotPos <= 0) {
+    StringView extension = NativePath::splitExt(requestPath).second;
+    if (!extension) {
         // no file extension
         responseIface->respondGeneric(ResponseCode::NotFound);
         return;
     }
 
-    auto cursor = params->extensionToContentType.find(filename.subStr(dotPos));
+    auto cursor = params->extensionToContentType.find(extension);
     if (!cursor.wasFound()) {
         // unrecognized file extension
         responseIface->respondGeneric(ResponseCode::NotFound);
-- 
2.43.0


From ade445df5e3e8a454106ebeaa1b115c262c1a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 109/149] fix: doc pages are found when the data folder is a
 relative path

---
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 8bda32d..7dffec2 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -114,8 +114,7 @@ String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* respo
     } else {
         absPath += ".html";
     }
-    String pageHtml =
-        fs->loadText(NativePath::join(ds->dataRoot, "pages", absPath), TextFormat::unixUTF8());
+    String pageHtml = fs->loadText(absPath, TextFormat::unixUTF8());
     if (!pageHtml) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
-- 
2.43.0


From 0bdadf62ec86939eb97a5ccdc5ac50d633a097f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 110/149] fix: doc contents aren't used while another thread
 reloads them

---
 .../ply-web-serve-docs/DocServer.cpp          | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 7dffec2..ca0423f 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -127,18 +127,18 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
 
     // Check if contents.pylon has been updated:
     FileStatus contentsStatus = fs->getFileStatus(this->contentsPath);
-    if (contentsStatus.result == FSResult::OK) {
-        if (contentsStatus.modificationTime != this->contentsModTime.load(MemoryOrder::Acquire)) {
-            ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
-            if (contentsStatus.modificationTime !=
-                this->contentsModTime.load(MemoryOrder::Relaxed)) {
-                this->reloadContents();
-            }
+    bool anyContents = false;
+    {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        if (contentsStatus.result == FSResult::OK &&
+            contentsStatus.modificationTime != this->contentsModTime.load(MemoryOrder::Relaxed)) {
+            this->reloadContents();
             this->contentsModTime = contentsStatus.modificationTime;
         }
+        anyContents = !this->contents.isEmpty();
     }
 
-    if (!this->contents) {
+    if (!anyContents) {
         responseIface->respondGeneric(ResponseCode::InternalError);
         return;
     }
@@ -150,9 +150,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
     ViewInStream vins{pageHtml};
     String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
 
-    // Figure out which TOC entries to expand
-    Array<const Contents*> expandTo;
+    // Figure out which TOC entries to expand and write the TOC. Other threads may reload the
+    // contents after contentsMutex is unlocked.
+    MemOutStream tocOuts;
     {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        Array<const Contents*> expandTo;
         auto cursor = this->pathToContents.find(
             requestPath ? (StringView{"/docs/"} + requestPath).view() : StringView{"/"});
         if (cursor.wasFound()) {
@@ -162,6 +165,9 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
                 node = node->parent;
             }
         }
+        for (const Contents* node : this->contents) {
+            dumpContents(&tocOuts, node, expandTo);
+        }
     }
 
     OutStream* outs = responseIface->beginResponseHeader(ResponseCode::OK);
@@ -199,9 +205,7 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
       <div class="inner">
         <ul>
 )#";
-    for (const Contents* node : this->contents) {
-        dumpContents(outs, node, expandTo);
-    }
+    *outs << tocOuts.moveToString();
     outs->format(R"(
         </ul>
       </div>
-- 
2.43.0


From 6263680af150230f554369e0b068b4c2d801a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:53 +0000
Subject: [PATCH 111/149] fix: Crowbar unary operators bind tighter than binary
 operators

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 63cf8a6..d331970 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -228,7 +228,7 @@ Owned<Expression> Parser::parseExpression(u32 outerPrecendenceLevel, bool asStat
                 }
                 auto unaryOp = expr->unaryOp().switchTo();
                 unaryOp->op = op;
-                unaryOp->expr = this->parseExpression();
+                unaryOp->expr = this->parseExpression(UnaryOpPrecedence[(u32) op]);
                 break;
             }
         }
-- 
2.43.0


From c2a78b76efcd8c48811297a794c463440b9f78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:53 +0000
Subject: [PATCH 112/149] fix: Crowbar tokens are expanded correctly near
 multiples of 256 bytes

---
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index c4316e2..f517256 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -135,7 +135,7 @@ PLY_NO_INLINE u32 expandTokenInternal(ExpandedToken& expToken, Tokenizer* tkr, u
         u32 compactLength = safeDemote<u32>(data - start);
         u32 endOffset = safeDemote<u32>(tkr->vin.cur - tkr->vin.start);
         if (data < tkr->tokenData.end()) {
-            endOffset = tkr->fileOffsetTable[(tokenIdx + 1) >> 8] +
+            endOffset = tkr->fileOffsetTable[(tokenIdx + compactLength) >> 8] +
                         details::LabelEncoder::decodeValue(data);
         }
         expToken.text =
-- 
2.43.0


From 6eecc9cf2e391b4b03170e1b80e3a865d919e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:53 +0000
Subject: [PATCH 113/149] fix: Crowbar reports unterminated strings instead of
 asserting

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp    |  6 ++++--
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp | 13 ++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index d331970..dea78fd 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -175,8 +175,10 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 return;
             }
             default: {
-                PLY_ASSERT(0); // Shouldn't get here
-                break;
+                // End-of-file, or a token that was pushed back because it closes an outer scope.
+                error(parser, token, ErrorTokenAction::PushBack,
+                      String::format("unexpected {} inside string", token.desc()));
+                return;
             }
         }
     }
diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index f517256..bbd49b8 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -216,13 +216,18 @@ PLY_NO_INLINE void readNumeric(ExpandedToken& expToken, Tokenizer* tkr) {
 PLY_NO_INLINE void readString(ExpandedToken& expToken, Tokenizer* tkr) {
     MemOutStream mout;
     for (;;) {
-        if (tkr->vin.atEOF())
-            goto eofError;
+        if (tkr->vin.atEOF()) {
+            if (mout.getSeekPos() == 0) {
+                makeEndOfFileToken(expToken, tkr);
+                return;
+            }
+            goto gotStringLiteral;
+        }
         char c = tkr->vin.peek();
         if (c == '\\') {
             tkr->vin.next();
             if (tkr->vin.atEOF())
-                goto eofError;
+                continue;
             mout << tkr->vin.next();
         } else if (c == '"') {
             if (mout.getSeekPos() == 0) {
@@ -251,8 +256,6 @@ PLY_NO_INLINE void readString(ExpandedToken& expToken, Tokenizer* tkr) {
             tkr->vin.next();
         }
     }
-eofError:
-    PLY_ASSERT(0);
 gotStringLiteral:
     String text = mout.moveToString();
     expToken.type = TokenType::StringLiteral;
-- 
2.43.0


From 501b7e6014d0e4761f4ea5f5ad8ac1174b4fc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 114/149] fix: Crowbar error message for unclosed embeds has a
 valid format string

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index dea78fd..79df691 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -163,7 +163,7 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 if (closeToken.type != TokenType::CloseCurly) {
                     error(parser, closeToken, ErrorTokenAction::HandleUnexpected,
                           String::format(
-                              "expected '}' to close embedded expression at {}; got {}",
+                              "expected '}}' to close embedded expression at {}; got {}",
                               parser->tkr->fileLocationMap.formatFileLocation(token.fileOffset),
                               closeToken.desc()));
                     skipAnyScope(parser, nullptr, TokenType::OpenCurly);
-- 
2.43.0


From e016e64f587e5ffbd2e2bd009e7fee4743cfd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 115/149] fix: objects in an ObjectStack are aligned, and
 destructed with it

---
 .../ply-reflect/methods/ObjectStack.cpp       | 25 +++++++++++++------
 .../reflect/ply-reflect/methods/ObjectStack.h |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
index a7bc52f..b620089 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
@@ -8,8 +8,20 @@
 
 namespace ply {
 
+// Objects are padded to keep the next object aligned.
+static PLY_INLINE u32 getPaddedSize(TypeDescriptor* type) {
+    PLY_ASSERT(type->alignment <= 16);
+    return alignPowerOf2(type->fixedSize, 16u);
+}
+
+ObjectStack::~ObjectStack() {
+    for (AnyObject& obj : this->items) {
+        obj.destruct();
+    }
+}
+
 AnyObject* ObjectStack::appendObject(TypeDescriptor* type) {
-    void* data = this->storage.appendBytes(type->fixedSize);
+    void* data = this->storage.appendBytes(getPaddedSize(type));
     AnyObject* obj = &this->items.append(data, type);
     obj->construct();
     return obj;
@@ -17,10 +29,10 @@ AnyObject* ObjectStack::appendObject(TypeDescriptor* type) {
 
 void ObjectStack::popLastObject() {
     AnyObject* lastObj = &this->items.tail();
-    PLY_ASSERT(PLY_PTR_OFFSET(lastObj->data, lastObj->type->fixedSize) ==
-               this->storage.tail->unused());
+    u32 numBytes = getPaddedSize(lastObj->type);
+    PLY_ASSERT(PLY_PTR_OFFSET(lastObj->data, numBytes) == this->storage.tail->unused());
     lastObj->destruct();
-    this->storage.popLastBytes(lastObj->type->fixedSize);
+    this->storage.popLastBytes(numBytes);
     this->items.popTail();
 }
 
@@ -35,16 +47,15 @@ void ObjectStack::deleteRange(const ObjectStack::Boundary& from, const WeakSeque
     BlockList::WeakRef dst = from.storage.normalized();
     WeakSequenceRef<AnyObject> end = this->items.end();
     for (; cur != end; ++cur) {
-        u32 numBytes = cur->type->fixedSize;
+        u32 numBytes = getPaddedSize(cur->type);
         if (safeDemote<u32>(dst.block->end() - dst.byte) < numBytes) {
             // FIXME: Handle objects larger than the block size
             PLY_ASSERT(dst.block->nextBlock->blockSize >= numBytes);
             dst = {dst.block->nextBlock, dst.block->bytes};
         }
-        // FIXME: Handle alignment
         memmove(dst.byte, cur->data, cur->type->fixedSize);
         cur->data = dst.byte;
-        dst.byte += cur->type->fixedSize;
+        dst.byte += numBytes;
     }
 
     // Trim storage.
diff --git a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.h b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.h
index 4ff5a9d..32226eb 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.h
+++ b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.h
@@ -27,6 +27,7 @@ struct ObjectStack {
     BlockList storage;
     Sequence<AnyObject> items;
 
+    PLY_DLL_ENTRY ~ObjectStack();
     AnyObject* appendObject(TypeDescriptor* type);
     void popLastObject();
     void deleteRange(const Boundary& from, const WeakSequenceRef<AnyObject>& to);
-- 
2.43.0


From 8d589f21297cff98ae9568f91ac79a48cb2caa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 116/149] fix: Crowbar variables, arguments and results are
 copied instead of moved out of

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp   | 81 ++++++++++---------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index af797cc..c53d8ef 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -48,9 +48,21 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     return MethodResult::OK;
 }
 
-PLY_INLINE bool isReturnValueOnTopOfStack(Interpreter* interp) {
-    return !interp->localVariableStorage.items.isEmpty() &&
-           (interp->localVariableStorage.items.tail() == interp->returnValue);
+// Functions are passed around by reference. All other objects are values.
+PLY_INLINE bool isFunction(const AnyObject& obj) {
+    return obj.is<Statement::FunctionDefinition>() || obj.type->typeKey == &TypeKey_Function;
+}
+
+// Ensures that interp->returnValue is a temporary object on top of the stack, and not an existing
+// object such as a variable or literal. `boundary` is the end of the stack before the current
+// expression was evaluated.
+void makeReturnValueTemporary(Interpreter* interp, const ObjectStack::Boundary& boundary) {
+    if ((boundary != interp->localVariableStorage.end()) &&
+        (interp->localVariableStorage.items.tail() == interp->returnValue))
+        return;
+    AnyObject* obj = interp->localVariableStorage.appendObject(interp->returnValue.type);
+    obj->copy(interp->returnValue);
+    interp->returnValue = *obj;
 }
 
 MethodResult evalPropertyLookup(Interpreter::StackFrame* frame,
@@ -118,18 +130,15 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     // Evaluate arguments.
     Array<AnyObject> args;
     for (const Expression* argExpr : call->args) {
+        ObjectStack::Boundary argBoundary = interp->localVariableStorage.end();
         result = eval(frame, argExpr);
         if (result != MethodResult::OK)
             return result;
 
-        AnyObject* arg;
-        if (!isReturnValueOnTopOfStack(interp)) {
-            arg = interp->localVariableStorage.appendObject(interp->returnValue.type);
-            arg->move(interp->returnValue);
-        } else {
-            arg = &interp->localVariableStorage.items.tail();
+        if (!isFunction(interp->returnValue)) {
+            makeReturnValueTemporary(interp, argBoundary);
         }
-        args.append(*arg);
+        args.append(interp->returnValue);
         interp->returnValue = {};
     }
 
@@ -286,48 +295,43 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     }
 
     // Evaluate right side.
+    ObjectStack::Boundary rightBoundary = interp->localVariableStorage.end();
     MethodResult result = eval(frame, assign->right);
     if (result != MethodResult::OK)
         return result;
+    bool isValue = !isFunction(interp->returnValue);
+    if (isValue) {
+        makeReturnValueTemporary(interp, rightBoundary);
+    }
 
     // Perform assignment.
     if (assign->left->id == Expression::ID::NameLookup) {
         PLY_ASSERT(!left.data);
         Label name = assign->left->nameLookup()->name;
         auto cursor = frame->localVariableTable.insertOrFind(name);
-        if (cursor.wasFound()) {
+        if (isValue && !cursor.wasFound()) {
+            WeakSequenceRef<AnyObject> deleteTo = interp->localVariableStorage.items.end();
+            --deleteTo;
+            // Delete temporary objects except for the return value.
+            interp->localVariableStorage.deleteRange(localVariableStorageBoundary, deleteTo);
+            // We've just created a new local variable.
+            cursor->obj = interp->localVariableStorage.items.tail();
+            interp->returnValue = {};
+            return MethodResult::OK;
+        }
+        if (isValue) {
             // Move result to existing local variable.
             cursor->obj.move(interp->returnValue);
-            // Delete temporary objects.
-            interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                                     interp->localVariableStorage.items.end());
         } else {
-            if (isReturnValueOnTopOfStack(interp)) {
-                WeakSequenceRef<AnyObject> deleteTo = interp->localVariableStorage.items.end();
-                --deleteTo;
-                // Delete temporary objects except for the return value.
-                interp->localVariableStorage.deleteRange(localVariableStorageBoundary, deleteTo);
-                // We've just created a new local Local variable.
-                cursor->obj = interp->localVariableStorage.items.tail();
-            } else {
-                // Delete temporary objects.
-                interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                                         interp->localVariableStorage.items.end());
-                // Allocate storage for new local variable.
-                AnyObject* dest =
-                    interp->localVariableStorage.appendObject(interp->returnValue.type);
-                dest->move(interp->returnValue);
-                cursor->obj = *dest;
-            }
+            cursor->obj = interp->returnValue;
         }
-        interp->returnValue = {};
     } else {
         left.move(interp->returnValue);
-        interp->returnValue = {};
-        // Delete temporary objects.
-        interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                                 interp->localVariableStorage.items.end());
     }
+    interp->returnValue = {};
+    // Delete temporary objects.
+    interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
+                                             interp->localVariableStorage.items.end());
     return MethodResult::OK;
 }
 
@@ -372,9 +376,14 @@ MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* blo
                 break;
             }
             case Statement::ID::Return_: {
+                ObjectStack::Boundary boundary = interp->localVariableStorage.end();
                 MethodResult result = eval(frame, statement->return_()->expr);
                 if (result != MethodResult::OK)
                     return result;
+                if (interp->returnValue.data && !isFunction(interp->returnValue)) {
+                    // Local variables are about to be destroyed.
+                    makeReturnValueTemporary(interp, boundary);
+                }
                 return MethodResult::Return;
             }
             case Statement::ID::CustomBlock: {
-- 
2.43.0


From 00d3b63736267e7dba28ea15904d60fb87c87af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:41 +0000
Subject: [PATCH 117/149] fix: Crowbar type errors are reported as runtime
 errors instead of asserting

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp   | 121 +++++++++++++-----
 .../builtin/TypeDescriptor_Arithmetic.cpp     |  12 ++
 .../builtin/TypeDescriptor_Bool.cpp           |   2 +
 .../builtin/TypeDescriptor_Function.h         |  13 +-
 .../builtin/TypeDescriptor_String.cpp         |  10 +-
 5 files changed, 119 insertions(+), 39 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index c53d8ef..46ed9ad 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -12,8 +12,43 @@ MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr);
 MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* block);
 MethodResult execFunction(Interpreter::StackFrame* frame, const StatementBlock* block);
 
+// Evaluates an expression and reports an error if it has no value.
+MethodResult evalValue(Interpreter::StackFrame* frame, const Expression* expr) {
+    MethodResult result = eval(frame, expr);
+    if (result == MethodResult::OK && !frame->interp->returnValue.data) {
+        PLY_SET_IN_SCOPE(frame->tokenIdx, expr->tokenIdx);
+        frame->interp->error(frame->interp, "expression has no value");
+        return MethodResult::Error;
+    }
+    return result;
+}
+
+// Evaluates the condition of an if-statement or while-loop.
+MethodResult evalCondition(Interpreter::StackFrame* frame, const Expression* expr,
+                           bool* wasTrue) {
+    Interpreter* interp = frame->interp;
+    ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
+    MethodResult result = evalValue(frame, expr);
+    if (result != MethodResult::OK)
+        return result;
+    // FIXME: Do implicit conversion to bool
+    if (!interp->returnValue.is<bool>()) {
+        PLY_SET_IN_SCOPE(frame->tokenIdx, expr->tokenIdx);
+        interp->error(interp, String::format("condition must be 'bool', not '{}'",
+                                             interp->returnValue.type->getName()));
+        interp->returnValue = {};
+        return MethodResult::Error;
+    }
+    *wasTrue = *interp->returnValue.cast<bool>();
+    interp->returnValue = {};
+    // Delete temporary objects.
+    interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
+                                             interp->localVariableStorage.items.end());
+    return MethodResult::OK;
+}
+
 // FIXME: Generalize this:
-void write(OutStream& outs, const AnyObject& arg) {
+bool write(OutStream& outs, const AnyObject& arg) {
     if (arg.is<u32>()) {
         outs << *arg.cast<u32>();
     } else if (arg.is<bool>()) {
@@ -21,8 +56,9 @@ void write(OutStream& outs, const AnyObject& arg) {
     } else if (arg.is<String>()) {
         outs << *arg.cast<String>();
     } else {
-        PLY_ASSERT(0);
+        return false;
     }
+    return true;
 }
 
 MethodResult evalString(Interpreter::StackFrame* frame,
@@ -33,11 +69,17 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     for (const Expression::InterpolatedString::Piece& piece : stringExp->pieces) {
         mout << piece.literal;
         if (piece.embed) {
-            MethodResult result = eval(frame, piece.embed);
+            MethodResult result = evalValue(frame, piece.embed);
             if (result != MethodResult::OK)
                 return result;
-            write(mout, interp->returnValue);
+            AnyObject value = interp->returnValue;
             interp->returnValue = {};
+            if (!write(mout, value)) {
+                PLY_SET_IN_SCOPE(frame->tokenIdx, piece.embed->tokenIdx);
+                interp->error(interp, String::format("'{}' does not support printing",
+                                                     value.type->getName()));
+                return MethodResult::Error;
+            }
         }
     }
 
@@ -70,7 +112,7 @@ MethodResult evalPropertyLookup(Interpreter::StackFrame* frame,
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, propLookup->obj);
+    MethodResult result = evalValue(frame, propLookup->obj);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -86,14 +128,14 @@ MethodResult evalBinaryOp(Interpreter::StackFrame* frame, const Expression::Bina
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, binaryOp->left);
+    MethodResult result = evalValue(frame, binaryOp->left);
     if (result != MethodResult::OK)
         return result;
     AnyObject left = interp->returnValue;
     interp->returnValue = {};
 
     // Evaluate right side.
-    result = eval(frame, binaryOp->right);
+    result = evalValue(frame, binaryOp->right);
     if (result != MethodResult::OK)
         return result;
     AnyObject right = interp->returnValue;
@@ -107,7 +149,7 @@ MethodResult evalUnaryOp(Interpreter::StackFrame* frame, const Expression::Unary
     Interpreter* interp = frame->interp;
 
     // Evaluate subexpression.
-    MethodResult result = eval(frame, unaryOp->expr);
+    MethodResult result = evalValue(frame, unaryOp->expr);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -121,7 +163,7 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     Interpreter* interp = frame->interp;
 
     // Evaluate callable.
-    MethodResult result = eval(frame, call->callable);
+    MethodResult result = evalValue(frame, call->callable);
     if (result != MethodResult::OK)
         return result;
     AnyObject callee = interp->returnValue;
@@ -131,7 +173,7 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     Array<AnyObject> args;
     for (const Expression* argExpr : call->args) {
         ObjectStack::Boundary argBoundary = interp->localVariableStorage.end();
-        result = eval(frame, argExpr);
+        result = evalValue(frame, argExpr);
         if (result != MethodResult::OK)
             return result;
 
@@ -147,7 +189,13 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
         // It's a Crowbar function.
         // FIXME: Move this to MethodTable.
         const auto* functionDef = callee.cast<Statement::FunctionDefinition>();
-        PLY_ASSERT(args.numItems() == functionDef->parameterNames.numItems());
+        if (args.numItems() != functionDef->parameterNames.numItems()) {
+            interp->error(interp, String::format("'{}' expects {} arguments; got {}",
+                                                 LabelMap::instance.view(functionDef->name),
+                                                 functionDef->parameterNames.numItems(),
+                                                 args.numItems()));
+            return MethodResult::Error;
+        }
 
         // Set up a new stack frame.
         Interpreter::StackFrame newFrame;
@@ -233,19 +281,11 @@ MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr) {
 }
 
 MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
-    Interpreter* interp = frame->interp;
-
     // Evaluate condition.
-    ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-    MethodResult result = eval(frame, if_->condition);
+    bool wasTrue = false;
+    MethodResult result = evalCondition(frame, if_->condition, &wasTrue);
     if (result != MethodResult::OK)
         return result;
-    // FIXME: Do implicit conversion to bool
-    bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
-    interp->returnValue = {};
-    // Delete temporary objects.
-    interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                             interp->localVariableStorage.items.end());
 
     // Execute the appropriate child block (if any).
     PLY_ASSERT(if_->trueBlock);
@@ -256,20 +296,12 @@ MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
 }
 
 MethodResult execWhile(Interpreter::StackFrame* frame, const Statement::While_* while_) {
-    Interpreter* interp = frame->interp;
-
     for (;;) {
         // Evaluate condition.
-        ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-        MethodResult result = eval(frame, while_->condition);
+        bool wasTrue = false;
+        MethodResult result = evalCondition(frame, while_->condition, &wasTrue);
         if (result != MethodResult::OK)
             return result;
-        // FIXME: Do implicit conversion to bool
-        bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
-        interp->returnValue = {};
-        // Delete temporary objects.
-        interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                                 interp->localVariableStorage.items.end());
 
         // Either stop, or execute the child block.
         if (!wasTrue)
@@ -280,6 +312,25 @@ MethodResult execWhile(Interpreter::StackFrame* frame, const Statement::While_*
     }
 }
 
+// Checks the types before interp->returnValue is assigned to an existing object.
+bool canAssign(Interpreter::StackFrame* frame, const Statement::Assignment* assign,
+               const AnyObject& left) {
+    Interpreter* interp = frame->interp;
+    PLY_SET_IN_SCOPE(frame->tokenIdx, assign->left->tokenIdx);
+    if ((assign->left->id != Expression::ID::NameLookup) &&
+        (assign->left->id != Expression::ID::PropertyLookup)) {
+        interp->error(interp, "only variables and properties can be assigned");
+    } else if (isFunction(left) || (left.type != interp->returnValue.type)) {
+        interp->error(interp, String::format("cannot assign '{}' to '{}'",
+                                             interp->returnValue.type->getName(),
+                                             left.type->getName()));
+    } else {
+        return true;
+    }
+    interp->returnValue = {};
+    return false;
+}
+
 MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignment* assign) {
     Interpreter* interp = frame->interp;
     ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
@@ -287,7 +338,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     // Evaluate left side.
     AnyObject left;
     if (assign->left->id != Expression::ID::NameLookup) {
-        MethodResult result = eval(frame, assign->left);
+        MethodResult result = evalValue(frame, assign->left);
         if (result != MethodResult::OK)
             return result;
         left = interp->returnValue;
@@ -296,7 +347,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
 
     // Evaluate right side.
     ObjectStack::Boundary rightBoundary = interp->localVariableStorage.end();
-    MethodResult result = eval(frame, assign->right);
+    MethodResult result = evalValue(frame, assign->right);
     if (result != MethodResult::OK)
         return result;
     bool isValue = !isFunction(interp->returnValue);
@@ -321,11 +372,15 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
         }
         if (isValue) {
             // Move result to existing local variable.
+            if (!canAssign(frame, assign, cursor->obj))
+                return MethodResult::Error;
             cursor->obj.move(interp->returnValue);
         } else {
             cursor->obj = interp->returnValue;
         }
     } else {
+        if (!canAssign(frame, assign, left))
+            return MethodResult::Error;
         left.move(interp->returnValue);
     }
     interp->returnValue = {};
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
index 6e95f4a..d64aac3 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
@@ -21,6 +21,8 @@ struct ArithmeticMethodTable {
         MethodTable methods;
         methods.binaryOp = [](BaseInterpreter* interp, MethodTable::BinaryOp op,
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
+            if (!second.is<T>())
+                return MethodTable::unsupportedBinaryOp(interp, op, first, second);
             switch (op) {
                 case MethodTable::BinaryOp::Multiply: {
                     interp->returnValue =
@@ -29,12 +31,22 @@ struct ArithmeticMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Divide: {
+                    if (*second.cast<T>() == 0) {
+                        interp->returnValue = {};
+                        interp->error(interp, "division by zero");
+                        return MethodResult::Error;
+                    }
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() / *second.cast<T>();
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Modulo: {
+                    if (*second.cast<T>() == 0) {
+                        interp->returnValue = {};
+                        interp->error(interp, "division by zero");
+                        return MethodResult::Error;
+                    }
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() % *second.cast<T>();
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
index ae36355..c587fed 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
@@ -19,6 +19,8 @@ struct BoolMethodTable {
         MethodTable methods;
         methods.binaryOp = [](BaseInterpreter* interp, MethodTable::BinaryOp op,
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
+            if (!second.is<bool>())
+                return MethodTable::unsupportedBinaryOp(interp, op, first, second);
             switch (op) {
                 case MethodTable::BinaryOp::DoubleEqual: {
                     interp->returnValue =
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
index 707b822..65bfa67 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
@@ -38,8 +38,11 @@ struct FunctionCallThunk<Param0> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, Param0);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
-        PLY_ASSERT(args[0].type->isEquivalentTo(getTypeDescriptor<Param0>()));
+        if (args.numItems != 1 || !args[0].type->isEquivalentTo(getTypeDescriptor<Param0>())) {
+            interp->returnValue = {};
+            interp->error(interp, "unexpected arguments in function call");
+            return MethodResult::Error;
+        }
         return reinterpret_cast<FunctionType*>(callee.data)(interp, *(Param0*) args[0].data);
     }
 };
@@ -49,7 +52,11 @@ struct FunctionCallThunk<const AnyObject&> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, const AnyObject&);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
+        if (args.numItems != 1) {
+            interp->returnValue = {};
+            interp->error(interp, "unexpected arguments in function call");
+            return MethodResult::Error;
+        }
         return reinterpret_cast<FunctionType*>(callee.data)(interp, args[0]);
     }
 };
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
index 92be3a2..be20a98 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
@@ -22,6 +22,8 @@ struct StringMethodTable {
                               const AnyObject& first, const AnyObject& second) {
             switch (op) {
                 case MethodTable::BinaryOp::Add: {
+                    if (!second.is<String>())
+                        break;
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
@@ -29,16 +31,18 @@ struct StringMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Multiply: {
+                    if (!second.is<u32>())
+                        break;
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
                         *first.cast<String>() * *second.cast<u32>();
                     return MethodResult::OK;
                 }
-                default: {
-                    return MethodTable::unsupportedBinaryOp(interp, op, first, second);
-                }
+                default:
+                    break;
             }
+            return MethodTable::unsupportedBinaryOp(interp, op, first, second);
         };
         return methods;
     }
-- 
2.43.0


From b71962ae6372fc0f338040e961c0a4ec8371953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:08 +0000
Subject: [PATCH 118/149] fix: Crowbar parser stops at an end-of-file inside a
 parameter list

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 79df691..c25ef37 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -458,9 +458,9 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
                      parser->recovery.outerAcceptFlags | Parser::RecoveryState::AcceptCloseParen);
     for (;; paramToken = parser->tkr->readToken()) {
         if (paramToken.type != TokenType::Identifier) {
-            if (error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected function parameter; got {}", paramToken.desc())))
-                return;
+            error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected function parameter; got {}", paramToken.desc()));
+            return;
         }
         functionDef->parameterNames.append(paramToken.label);
         ExpandedToken token = parser->tkr->readToken();
@@ -469,10 +469,10 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
             return;
         }
         if (token.type != TokenType::Comma) {
-            if (error(parser, token, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected ',' or ')' after parameter {}; got {}",
-                                     paramToken.desc(), token.desc())))
-                return;
+            error(parser, token, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected ',' or ')' after parameter {}; got {}",
+                                 paramToken.desc(), token.desc()));
+            return;
         }
     }
 }
-- 
2.43.0


From eca6da1d42799064083cdef466d1d9cc3ec31364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:39 +0000
Subject: [PATCH 119/149] fix: deleting a range of an ObjectStack keeps its
 storage blocks consistent

---
 .../src/reflect/ply-reflect/methods/ObjectStack.cpp   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
index b620089..77a027b 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
@@ -51,15 +51,20 @@ void ObjectStack::deleteRange(const ObjectStack::Boundary& from, const WeakSeque
         if (safeDemote<u32>(dst.block->end() - dst.byte) < numBytes) {
             // FIXME: Handle objects larger than the block size
             PLY_ASSERT(dst.block->nextBlock->blockSize >= numBytes);
-            dst = {dst.block->nextBlock, dst.block->bytes};
+            dst.block->numBytesUsed = safeDemote<u32>(dst.byte - dst.block->bytes);
+            BlockList::Footer* nextBlock = dst.block->nextBlock;
+            dst = {nextBlock, nextBlock->bytes};
         }
         memmove(dst.byte, cur->data, cur->type->fixedSize);
         cur->data = dst.byte;
         dst.byte += numBytes;
     }
 
-    // Trim storage.
-    dst.block->numBytesUsed = dst.block->offsetOf(dst.byte);
+    // Trim storage. Only the head block may be empty.
+    if (dst.byte == dst.block->start() && dst.block->prevBlock) {
+        dst = {dst.block->prevBlock, dst.block->prevBlock->unused()};
+    }
+    dst.block->numBytesUsed = safeDemote<u32>(dst.byte - dst.block->bytes);
     dst.block->nextBlock.clear();
     this->storage.tail = dst.block;
 
-- 
2.43.0


From 29d5a8f1c4ea8fa97c3f970c8a629105f02b61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:13 +0000
Subject: [PATCH 120/149] fix: image::toABGR puts the last component in the
 wrong byte

---
 repos/plywood/src/image/image/image/Image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/image/image/image/Image.h b/repos/plywood/src/image/image/image/Image.h
index c22bcf5..9b1a2fb 100644
--- a/repos/plywood/src/image/image/image/Image.h
+++ b/repos/plywood/src/image/image/image/Image.h
@@ -33,7 +33,7 @@ enum class Format : u8 {
 
 #if PLY_IS_BIG_ENDIAN
 inline u32 toRGBA(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 inline u32 toABGR(const Int4<u8>& color) {
     return (const u32&) color;
@@ -43,7 +43,7 @@ inline u32 toRGBA(const Int4<u8>& color) {
     return (const u32&) color;
 }
 inline u32 toABGR(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 #endif
 
-- 
2.43.0


From a30914332173b317b8ff749ce3c2203ced62fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:13 +0000
Subject: [PATCH 121/149] fix: Moving an OwnImage onto itself frees its pixels

---
 repos/plywood/src/image/image/image/Image.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/image/image/image/Image.h b/repos/plywood/src/image/image/image/Image.h
index 9b1a2fb..cf509e7 100644
--- a/repos/plywood/src/image/image/image/Image.h
+++ b/repos/plywood/src/image/image/image/Image.h
@@ -193,6 +193,8 @@ struct OwnImage : Image {
     }
 
     void operator=(OwnImage&& other) {
+        if (this == &other)
+            return;
         if (data) {
             PLY_HEAP.free(data);
         }
-- 
2.43.0


From b6765bf29144d3fcc8b202835a26feeb7d36d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:13 +0000
Subject: [PATCH 122/149] fix: image::linearToSRGB reads levels above 127 as
 negative

---
 repos/plywood/src/image/image/image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/image/image/image/Image.cpp b/repos/plywood/src/image/image/image/Image.cpp
index 643a667..919a03a 100644
--- a/repos/plywood/src/image/image/image/Image.cpp
+++ b/repos/plywood/src/image/image/image/Image.cpp
@@ -39,15 +39,15 @@ void linearToSRGB(Image& dst, const Image& src) {
     PLY_ASSERT(dst.height == src.height);
     char* dstRow = dst.data;
     char* dstRowEnd = dstRow + dst.stride * dst.height;
-    char* srcRow = src.data;
+    const char* srcRow = src.data;
     while (dstRow < dstRowEnd) {
         u32* d = (u32*) dstRow;
         u32* dEnd = d + dst.width;
-        char* s = srcRow;
+        const u8* s = (const u8*) srcRow;
         while (d < dEnd) {
             float invGamma = powf(*s / 255.f, 1 / 2.2f);
             u32 value = u32(roundf(invGamma * 255.f));
-            *d = ((0x10101 * value) & 0xffffff) | ((255 - *s) << 24);
+            *d = ((0x10101 * value) & 0xffffff) | (u32(255 - *s) << 24);
             //            *d |= 0xff000000;
             d++;
             s++;
-- 
2.43.0


From 482146b86c1f45d670957e790c5656c850d85950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:14 +0000
Subject: [PATCH 123/149] fix: getTargetOutputPath doesn't know where static
 libraries are written

---
 repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index 03083fc..ad6016f 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -395,7 +395,7 @@ String getTargetOutputPath(BuildTargetType targetType, StringView targetName,
         filePrefix = "lib";
         fileExtension = ".so";
 #endif
-    } else if (targetType == BuildTargetType::DLL) {
+    } else if (targetType == BuildTargetType::Lib) {
 #if PLY_TARGET_WIN32
         fileExtension = ".lib";
 #else
-- 
2.43.0


From 6497ef29e286202da4b0413429a34c482db13a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:46 +0000
Subject: [PATCH 124/149] fix: Targets whose names differ only in case get each
 other's source files

---
 .../plywood/src/build/target/ply-build-target/CMakeLists.cpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index ad6016f..bc447ec 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -80,7 +80,7 @@ include("${CMAKE_CURRENT_LIST_DIR}/Helper.cmake")
         }
         */
         for (const BuildTarget::SourceFilesPair& sfPair : sourceFiles) {
-            String varName = uniqueTargetName.upperAsc() + "_SOURCES";
+            String varName = uniqueTargetName + "_SOURCES";
             sourceVarNames.append(varName);
             outs->format("SetSourceFolders({} \"{}\"\n", varName,
                        fmt::EscapedString(filterPath(sfPair.root)));
@@ -91,7 +91,7 @@ include("${CMAKE_CURRENT_LIST_DIR}/Helper.cmake")
         }
 
         for (const BuildTarget::SourceFilesPair& sfPair : buildTarget->nonParticipatingFiles) {
-            String varName = uniqueTargetName.upperAsc() + "_SOURCES";
+            String varName = uniqueTargetName + "_SOURCES";
             if (find(sourceVarNames, varName) < 0)
                 sourceVarNames.append(varName);
 
-- 
2.43.0


From 67d18c00d4d5b765fa9ee7b0ac57a0c7fedb4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 125/149] fix: "plytool folder create" refuses names that lead
 outside of data/build

---
 .../src/apps/plytool/plytool/Command_Folder.cpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
index 682ce70..3405f50 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
@@ -10,6 +10,17 @@
 
 namespace ply {
 
+// The name must be that of a direct subfolder of data/build.
+static bool isValidBuildFolderName(StringView name) {
+    if (name == "." || name == "..")
+        return false;
+    for (u32 i = 0; i < name.numBytes; i++) {
+        if (NativePath::isSepByte(name[i]))
+            return false;
+    }
+    return !NativePath::hasDriveLetter(name);
+}
+
 void command_folder(PlyToolCommandEnv* env) {
     using namespace build;
     StringView cmd = env->cl->readToken();
@@ -53,6 +64,10 @@ void command_folder(PlyToolCommandEnv* env) {
             fatalError(String::format("Folder \"{}\" already exists", name));
         }
 
+        if (!isValidBuildFolderName(name)) {
+            fatalError(String::format("Invalid folder name \"{}\"", name));
+        }
+
         Owned<BuildFolder> info = BuildFolder::create(name, name);
         info->cmakeOptions = NativeToolchain;
         if (env->workspace->defaultCMakeOptions.generator) {
-- 
2.43.0


From 7d565e51aafbd675d9c3a6afe8ad326da0ed0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 126/149] fix: "plytool folder create" reports a folder that
 can't be saved instead of selecting it

---
 repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
index 3405f50..fa55e5a 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Folder.cpp
@@ -77,7 +77,9 @@ void command_folder(PlyToolCommandEnv* env) {
         if (env->workspace->defaultConfig) {
             info->activeConfig = env->workspace->defaultConfig;
         }
-        info->save();
+        if (!info->save()) {
+            fatalError(String::format("Can't save build folder \"{}\"", name));
+        }
         StdOut::text().format("Created build folder '{}' at: {}\n", info->buildFolderName,
                               info->getAbsPath());
         env->workspace->currentBuildFolder = name;
-- 
2.43.0


From 6412487dc051aa54ea579d7c5c0cab66d0c51350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 127/149] fix: listed target names are qualified when several
 repos define them

---
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 82036c7..cb497d6 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -389,10 +389,11 @@ PLY_NO_INLINE String RepoRegistry::getShortDepSourceName(const DependencySource*
     for (const Repo* repo : this->repos) {
         if (repo == depSrc->repo)
             continue;
-        s32 index =
-            find(repo->externs, [&](const DependencySource* d) { return d->name == depSrc->name; });
-        if (index >= 0) {
-            // Extern name is defined by multiple repos, so qualify it:
+        bool isAmbiguous = (depSrc->type == DependencySource::Target)
+                               ? (repo->findTargetInstantiatorImm(depSrc->name) != nullptr)
+                               : (repo->findExternImm(depSrc->name) != nullptr);
+        if (isAmbiguous) {
+            // Name is defined by multiple repos, so qualify it:
             return String::format("{}.{}", depSrc->repo->repoName, depSrc->name);
         }
     }
-- 
2.43.0


From 4d4af9f778aa2fb0033ccd13a2b7a9b2bfb4a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 128/149] fix: extern and provider names with too many or too
 few components are refused

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index cb497d6..7868046 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -242,7 +242,7 @@ PLY_NO_INLINE const DependencySource* findExternInternal(const RepoRegistry* rep
         const DependencySource* extern_ = (*repoCursor)->findExternImm(externName);
         if (!extern_) {
             ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't find extern '{}' in repo '{}'\n", externName[1],
+                              String::format("Can't find extern '{}' in repo '{}'\n", externName,
                                              (*repoCursor)->repoName));
             return nullptr;
         }
@@ -290,6 +290,7 @@ PLY_NO_INLINE const DependencySource* RepoRegistry::findExtern(StringView extern
     if (!comps.isEmpty()) {
         ErrorHandler::log(ErrorHandler::Error,
                           String::format("Too many components in extern name '{}'\n", externName));
+        return nullptr;
     }
     return extern_;
 }
@@ -309,6 +310,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         ErrorHandler::log(
             ErrorHandler::Error,
             String::format("Not enough components in extern provider name '{}'\n", qualifiedName));
+        return nullptr;
     }
     auto repoCursor = this->repos.find(comps[0]);
     if (repoCursor.wasFound()) {
-- 
2.43.0


From c71e6e408e1a893aaa66886f269f794f80396e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 129/149] fix: removing a root target also forgets that it was
 shared

---
 repos/plywood/src/apps/plytool/plytool/Command_Target.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
index d2dc8ec..384c773 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Target.cpp
@@ -127,6 +127,10 @@ void command_target(PlyToolCommandEnv* env) {
                                       RepoRegistry::get()->getShortDepSourceName(targetInst)));
         }
         env->currentBuildFolder->rootTargets.erase(j);
+        s32 sharedIdx = find(env->currentBuildFolder->makeShared, fullTargetName);
+        if (sharedIdx >= 0) {
+            env->currentBuildFolder->makeShared.erase(sharedIdx);
+        }
         env->currentBuildFolder->save();
         StdOut::text().format("Removed root target '{}' from build folder '{}'.\n",
                                             RepoRegistry::get()->getShortDepSourceName(targetInst),
-- 
2.43.0


From ffd3d0f9ab801eed4d10b9d5d4fc2351e3564f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:55 +0000
Subject: [PATCH 130/149] fix: the fully qualified name of an extern provider
 is never ambiguous

---
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 7868046..0204c8d 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -361,6 +361,18 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
             }
         }
 
+        if (conflict && this->repos.find(compsOwner[0]).wasFound()) {
+            // It's the fully qualified name of a provider that's defined by the extern's own repo,
+            // if there is one. (See ExternProvider::getFullyQualifiedName.)
+            s32 j = find(extern_->repo->externProviders, [&](const ExternProvider* p) {
+                return p->extern_ == extern_ && p->providerName == comps[0];
+            });
+            if (j >= 0) {
+                provider = extern_->repo->externProviders[j];
+                conflict = false;
+            }
+        }
+
         if (!provider) {
             ErrorHandler::log(
                 ErrorHandler::Error,
-- 
2.43.0


From 462f2a670257ebaef7f03c549c9ce44ea970974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:32 +0000
Subject: [PATCH 131/149] fix: CMakeLists.txt quotes the name of the project,
 which may contain spaces

---
 repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index bc447ec..6eaae42 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -44,7 +44,7 @@ void writeCMakeLists(OutStream* outs, CMakeBuildFolder* cbf) {
     *outs << "set(CMAKE_CONFIGURATION_TYPES \"Debug;RelWithAsserts;RelWithDebInfo\" CACHE "
            "INTERNAL "
            "\"Build configs\")\n";
-    outs->format("project({})\n", cbf->solutionName);
+    outs->format("project(\"{}\")\n", fmt::EscapedString{cbf->solutionName});
     if (cbf->forBootstrap) {
         *outs << R"(set(WORKSPACE_FOLDER "<<<WORKSPACE_FOLDER>>>")
 set(SRC_FOLDER "<<<SRC_FOLDER>>>")
-- 
2.43.0


From 66014ce412f685801a6a5e97e25037332a2ec337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 132/149] fix: code generation reflects every member declared
 in one declaration

Only the first declarator of a declaration such as `int a, b;` was reflected;
the others were silently left out of the generated type descriptor.
---
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index c3f2689..74a461e 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -233,8 +233,7 @@ struct ReflectionHooks : ParseSupervisor {
         State& state = this->stack.back();
         if (state.captureMembersToken.isValid()) {
             if (auto simple = decl.simple()) {
-                if (!simple->initDeclarators.isEmpty()) {
-                    const grammar::InitDeclaratorWithComma& initDecl = simple->initDeclarators[0];
+                for (const grammar::InitDeclaratorWithComma& initDecl : simple->initDeclarators) {
                     if (!initDecl.dcor.isFunction()) {
                         state.clazz->members.append(initDecl.dcor.qid.toString());
                     }
-- 
2.43.0


From 190ea9fb94c8e451fb1161a369e5d26a042986a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 133/149] fix: code generation accepts a generated include on
 the last line of a file

A file ending with a generated include line without a newline stopped the tool
on an assertion.
---
 repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index a52a763..bce6321 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -71,7 +71,7 @@ String performSubsts(StringView absPath, ArrayView<Subst> substs) {
     for (const Subst& subst : substs) {
         PLY_ASSERT(subst.start >= prevEndPos);
         u32 endPos = subst.start + subst.numBytes;
-        PLY_ASSERT(endPos < src.numBytes);
+        PLY_ASSERT(endPos <= src.numBytes);
         mout.write({src.bytes + prevEndPos, subst.start - prevEndPos});
         mout.write(subst.replacement);
         prevEndPos = endPos;
-- 
2.43.0


From ebc82f7670a75fb7d453a138d131dc3333042994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 134/149] fix: errors inside a macro expansion are reported
 where the macro is used

Reporting such an error stopped the program on an assertion.
---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index 2da3237..ee84091 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -12,9 +12,16 @@ namespace cpp {
 ExpandedFileLocation expandFileLocation(const PPVisitedFiles* visitedFiles,
                                         LinearLocation linearLoc) {
     auto iter = visitedFiles->locationMap.findLastLessThan(linearLoc + 1);
+    // A location inside a macro expansion is reported where the macro is used:
+    while (visitedFiles->includeChains[iter.getItem().includeChainIdx].isMacroExpansion) {
+        u32 parentIdx = visitedFiles->includeChains[iter.getItem().includeChainIdx].parentIdx;
+        while (iter.getItem().includeChainIdx != parentIdx) {
+            linearLoc = iter.getItem().linearLoc;
+            iter.prev();
+        }
+    }
     const cpp::PPVisitedFiles::IncludeChain& chain =
         visitedFiles->includeChains[iter.getItem().includeChainIdx];
-    PLY_ASSERT(!chain.isMacroExpansion); // FIXME handle macros
     const cpp::PPVisitedFiles::SourceFile* srcFile = &visitedFiles->sourceFiles[chain.fileOrExpIdx];
     FileLocation fileLoc = srcFile->fileLocMap.getFileLocation(
         safeDemote<u32>(linearLoc - iter.getItem().linearLoc + iter.getItem().offset));
-- 
2.43.0


From 35154f01ab996cbd19e2b548bbb931b35c6a4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 135/149] fix: a second PLY_REFLECT in a class is reported
 instead of crashing

The note about the first one used the location of a token that had been reset
at the end of the first reflected section.
---
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index 74a461e..4d42db2 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -137,6 +137,7 @@ void ReflectionHookError::writeMessage(OutStream* outs, const PPVisitedFiles* vi
 struct ReflectionHooks : ParseSupervisor {
     struct State {
         ReflectedClass* clazz = nullptr;
+        LinearLocation clazzLoc = -1;
         Token captureMembersToken;
         Owned<SwitchInfo> switch_ = nullptr;
         Owned<ReflectedEnum> enum_ = nullptr;
@@ -272,7 +273,7 @@ struct ReflectionHooks : ParseSupervisor {
             // Already have a PLY_REFLECT macro
             this->parser->pp->errorHandler(
                 new ReflectionHookError{ReflectionHookError::DuplicateCommand, token.linearLoc,
-                                        state.captureMembersToken.linearLoc});
+                                        state.clazzLoc});
             return;
         }
         ReflectedClass* clazz = new ReflectedClass;
@@ -280,6 +281,7 @@ struct ReflectionHooks : ParseSupervisor {
         clazz->name = this->getClassName();
         this->agg->classes.append(clazz);
         state.clazz = clazz;
+        state.clazzLoc = token.linearLoc;
         state.captureMembersToken = token;
     }
 
-- 
2.43.0


From 1f5b4f0795ff54fb90eb4ee1e8412a2c00a67744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:05 +0000
Subject: [PATCH 136/149] fix: an empty switch is reported instead of crashing
 the code generator

---
 .../src/apps/plytool/plytool/Command_CodeGen.cpp      |  1 -
 .../src/apps/plytool/plytool/ReflectionHooks.cpp      | 11 ++++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index bce6321..435ed6d 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -37,7 +37,6 @@ String getSwitchInl(SwitchInfo* switch_) {
     mout << "    PLY_INLINE ~Storage_() {}\n";
     mout << "};\n";
     StringView className = switch_->name.splitByte(':').back(); // FIXME: more elegant
-    // FIXME: Log an error if there are no states
     mout.format("SWITCH_FOOTER({}, {})\n", className, switch_->states[0]);
     for (StringView state : switch_->states) {
         mout.format("SWITCH_ACCESSOR({}, {}{})\n", state, state.left(1).lowerAsc(),
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index 4d42db2..b166e8d 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -57,6 +57,7 @@ struct ReflectionHookError : BaseError {
         // ply reflect enum
         Unknown,
         SwitchMayOnlyContainStructs,
+        SwitchMustContainAStruct,
         MissingReflectOffCommand,
         UnexpectedReflectOffCommand,
         CannotInjectCodeIntoMacro,
@@ -91,6 +92,10 @@ void ReflectionHookError::writeMessage(OutStream* outs, const PPVisitedFiles* vi
             *outs << "a switch may only contain structs\n";
             break;
         }
+        case ReflectionHookError::SwitchMustContainAStruct: {
+            *outs << "a switch must contain at least one struct\n";
+            break;
+        }
         case ReflectionHookError::MissingReflectOffCommand: {
             *outs << "can't find matching // ply reflect off\n";
             break;
@@ -193,7 +198,11 @@ struct ReflectionHooks : ParseSupervisor {
             auto* record = node.safeCast<grammar::DeclSpecifier::Record>();
             PLY_ASSERT(record);                                 // guaranteed by enter()
             PLY_ASSERT(record->classKey.identifier != "union"); // guaranteed by enter()
-            if (record->closeCurly.isValid()) {
+            if (state.switch_->states.isEmpty()) {
+                this->parser->pp->errorHandler(
+                    new ReflectionHookError{ReflectionHookError::SwitchMustContainAStruct,
+                                            state.switch_->macro.linearLoc});
+            } else if (record->closeCurly.isValid()) {
                 PPVisitedFiles* vf = this->parser->pp->visitedFiles;
                 auto iter = vf->locationMap.findLastLessThan(record->closeCurly.linearLoc + 1);
                 const PPVisitedFiles::LocationMapTraits::Item& lmItem = iter.getItem();
-- 
2.43.0


From 47c95fee0264f7d1bd76a1b530f46ad0b59d60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:54 +0000
Subject: [PATCH 137/149] fix: the C++ tokenizer accepts number suffixes in
 either case

A literal such as 5u or 1.5F was split into a number and an identifier.
---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index f2b2fd6..fe09f85 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -126,15 +126,19 @@ void readNumericLiteral(ViewInStream* vins) {
     }
     vins->parse<double>();
 suffix:
-    if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'f')) {
+    auto atSuffix = [&](char upper, char lower) {
+        return vins->tryMakeBytesAvailable() &&
+               ((vins->peekByte() == upper) || (vins->peekByte() == lower));
+    };
+    if (atSuffix('F', 'f')) {
         vins->advanceByte();
     } else {
-        if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'U')) {
+        if (atSuffix('U', 'u')) {
             vins->advanceByte();
         }
-        if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'L')) {
+        if (atSuffix('L', 'l')) {
             vins->advanceByte();
-            if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'L')) {
+            if (atSuffix('L', 'l')) {
                 vins->advanceByte();
             }
         }
-- 
2.43.0


From 71ba3ceb71334697d1c966432bb556d94f57901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 138/149] fix: an end-of-file token always has a location

Reading another token at the end of the file returned one without a location,
and reporting an error about it stopped the program on an assertion.
---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index fe09f85..0f41bcb 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -887,6 +887,10 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
     }
 
     token.type = Token::EndOfFile;
+    if (token.linearLoc < 0) {
+        // Nothing was left to read
+        token.linearLoc = pp->linearLocAtEndOfStackTop;
+    }
     return token;
 }
 
-- 
2.43.0


From 360b294b521949b3ce0dd5db3f236605850c371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:37 +0000
Subject: [PATCH 139/149] fix: the cleanup command handles files without code
 and comments that share a line with code

A file without any token stopped the tool on an assertion. A header comment that
ended on the line of the first token, or that contained a blank line, was cut in
the middle, which left a source file that no longer compiles.
---
 .../apps/plytool/plytool/Command_Cleanup.cpp  | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
index f06e7e7..adccada 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_Cleanup.cpp
@@ -6,6 +6,7 @@
 #include <ConsoleUtils.h>
 #include <ply-cpp/Preprocessor.h>
 #include <ply-cpp/ErrorFormatting.h>
+#include <ply-runtime/algorithm/Find.h>
 
 namespace ply {
 
@@ -46,21 +47,38 @@ void checkFileHeader(StringView srcPath, StringView desiredHeader, const TextFor
     bool anyError = false;
     pp.errorHandler = [&](Owned<BaseError>&&) { anyError = true; };
     Token tok;
+    Array<StringView> comments;
     for (;;) {
         tok = readToken(&pp);
         if (tok.type != Token::LineComment && tok.type != Token::CStyleComment)
             break;
+        comments.append(tok.identifier);
     }
 
-    ExpandedFileLocation efl = expandFileLocation(&visitedFiles, tok.linearLoc);
-    PLY_ASSERT(efl.srcFile == &srcFile);
-    StringView existingFileHeader = StringView::fromRange(
-        srcFile.contents.bytes, tok.identifier.bytes - efl.fileLoc.numBytesIntoLine);
+    if (anyError && tok.type == Token::EndOfFile)
+        return; // The file couldn't be read as C++, so leave it alone
 
-    // Trim header at first blank line
+    const char* endOfHeader = srcFile.contents.view().end();
+    if (tok.type != Token::EndOfFile) {
+        ExpandedFileLocation efl = expandFileLocation(&visitedFiles, tok.linearLoc);
+        PLY_ASSERT(efl.srcFile == &srcFile);
+        endOfHeader = tok.identifier.bytes - efl.fileLoc.numBytesIntoLine;
+    }
+    if (!comments.isEmpty()) {
+        // The first token can be on the line where the last comment ends
+        endOfHeader = max(endOfHeader, comments.back().end());
+    }
+    StringView existingFileHeader =
+        StringView::fromRange(srcFile.contents.bytes, endOfHeader);
+
+    // Trim header at first blank line that's not inside a comment
     {
         ViewInStream vins{existingFileHeader};
         while (StringView line = vins.readView<fmt::Line>()) {
+            if (find(comments, [&](StringView comment) {
+                    return comment.bytes < line.bytes && line.bytes < comment.end();
+                }) >= 0)
+                continue;
             if (line.rtrim(isWhite).isEmpty()) {
                 existingFileHeader = StringView::fromRange(existingFileHeader.bytes, line.bytes);
                 break;
-- 
2.43.0


From fb7cbe2b719500c057bb5e6b3439454a6b61cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:00 +0000
Subject: [PATCH 140/149] fix: let formats in a saved schema refer to formats
 that enclose them

---
 .../reflect/ply-reflect/PersistReadSchema.cpp | 44 ++++++++++++-------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
index cdd9343..375403e 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
@@ -40,6 +40,12 @@ public:
         PLY_ASSERT(BuiltInFormats.numItems() == int(FormatKey::StartUserKeyRange));
     }
 
+    template <typename T>
+    T* addUserFormat(T* newFormat) {
+        m_schema->userFormatDescs.append(newFormat);
+        return newFormat;
+    }
+
     FormatDescriptor* readFormatDescriptor(bool topLevel = false) {
         u8 formatKey = m_in.read<u8>();
         if (formatKey == (u8) FormatKey::None) {
@@ -67,26 +73,30 @@ public:
             return pair.formatDesc;
         }
 
+        // The actual formatID is FormatID_StartUserRange + the index in userFormatDescs. The
+        // descriptor is added there before its children are read, because they can refer to it.
         FormatDescriptor* newFormat = nullptr;
-        u32 userFormatIndex =
-            m_schema->userFormatDescs
-                .numItems(); // actual formatID is FormatID_StartUserRange + userFormatIndex
-        m_schema->userFormatDescs.append(nullptr);
         if (formatKey == (u8) FormatKey::FixedArray) {
             u32 numItems = m_in.read<u32>();
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_FixedArray{numItems, itemFormat};
+            FormatDescriptor_FixedArray* fixedFormat =
+                addUserFormat(new FormatDescriptor_FixedArray{numItems, nullptr});
+            fixedFormat->itemFormat = readFormatDescriptor();
+            newFormat = fixedFormat;
         } else if (formatKey == (u8) FormatKey::Array) {
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Array{itemFormat};
+            FormatDescriptor_Array* arrayFormat = addUserFormat(new FormatDescriptor_Array{nullptr});
+            arrayFormat->itemFormat = readFormatDescriptor();
+            newFormat = arrayFormat;
         } else if (formatKey == (u8) FormatKey::Owned) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Owned{childFormat};
+            FormatDescriptor_Owned* ownedFormat = addUserFormat(new FormatDescriptor_Owned{nullptr});
+            ownedFormat->childFormat = readFormatDescriptor();
+            newFormat = ownedFormat;
         } else if (formatKey == (u8) FormatKey::RawPtr) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_RawPtr{childFormat};
+            FormatDescriptor_RawPtr* rawPtrFormat =
+                addUserFormat(new FormatDescriptor_RawPtr{nullptr});
+            rawPtrFormat->childFormat = readFormatDescriptor();
+            newFormat = rawPtrFormat;
         } else if (formatKey == (u8) FormatKey::Struct) {
-            FormatDescriptor_Struct* structFormat = new FormatDescriptor_Struct;
+            FormatDescriptor_Struct* structFormat = addUserFormat(new FormatDescriptor_Struct);
             structFormat->name = Boxed<String>::read(m_in);
             u16 numTemplateParams = m_in.read<u16>();
             u16 numMembers = m_in.read<u16>();
@@ -102,7 +112,7 @@ public:
             }
             newFormat = structFormat;
         } else if (formatKey == (u8) FormatKey::Enum) {
-            FormatDescriptor_Enum* enumFormat = new FormatDescriptor_Enum;
+            FormatDescriptor_Enum* enumFormat = addUserFormat(new FormatDescriptor_Enum);
             enumFormat->name = Boxed<String>::read(m_in);
             enumFormat->fixedSize = m_in.read<u8>();
             u32 numEntries = m_in.read<u32>();
@@ -112,14 +122,15 @@ public:
             }
             newFormat = enumFormat;
         } else if (formatKey == (u8) FormatKey::EnumIndexedArray) {
-            FormatDescriptor_EnumIndexedArray* arrFormat = new FormatDescriptor_EnumIndexedArray;
+            FormatDescriptor_EnumIndexedArray* arrFormat =
+                addUserFormat(new FormatDescriptor_EnumIndexedArray);
             arrFormat->itemFormat = readFormatDescriptor();
             FormatDescriptor* enumFormat = readFormatDescriptor();
             PLY_ASSERT(enumFormat->formatKey == (u8) FormatKey::Enum);
             arrFormat->enumFormat = static_cast<FormatDescriptor_Enum*>(enumFormat);
             newFormat = arrFormat;
         } else if (formatKey == (u8) FormatKey::Switch) {
-            FormatDescriptor_Switch* switchFormat = new FormatDescriptor_Switch;
+            FormatDescriptor_Switch* switchFormat = addUserFormat(new FormatDescriptor_Switch);
             switchFormat->name = Boxed<String>::read(m_in);
             u16 numStates = m_in.read<u16>();
             switchFormat->states.resize(numStates);
@@ -133,7 +144,6 @@ public:
         } else {
             PLY_ASSERT(0);
         }
-        m_schema->userFormatDescs[userFormatIndex] = newFormat;
         return newFormat;
     }
 
-- 
2.43.0


From fbca80c9e911143e7c5c5131d89487c03ac95692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:40 +0000
Subject: [PATCH 141/149] fix: report parse errors in declarations that begin
 with extern

The restore point used to look for a linkage specification was still
active while the declaration itself was parsed, so that errors in it
were dropped, and an assertion failed at the end of it.
---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
index 5538d08..e1925a9 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
@@ -135,6 +135,7 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
             token = readToken(parser);
             if (token.type != Token::StringLiteral) {
                 rp.backtrack();
+                rp.cancel();
                 parseSimpleDeclaration(parser, enclosingClassName);
             } else {
                 linkage.literal = token;
@@ -157,6 +158,7 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
                     //      ^^^^^^^^^^
                     // FIXME: Make Declaration type for this
                     rp.backtrack();
+                    rp.cancel();
                     parseSimpleDeclaration(parser, enclosingClassName);
                 }
             }
-- 
2.43.0


From 6ea6e9a282f85e82670b74604429586f36126036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:57 +0000
Subject: [PATCH 142/149] fix: report a missing expression instead of failing
 an assertion

When the text where an expression is required could not begin one, as
in "int a = ;", parseExpression failed an assertion, and without
assertions it dropped the token.
---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp  | 2 ++
 repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp | 4 +++-
 repos/plywood/src/cpp/ply-cpp/Parser.h             | 1 +
 repos/plywood/src/cpp/ply-cpp/codegen/Parser.inl   | 1 +
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index ee84091..e79d516 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -87,6 +87,8 @@ StringView getExpectedTokenDesc(ExpectedToken expected) {
             return "template parameter";
         case ExpectedToken::TypeSpecifier:
             return "type specifier";
+        case ExpectedToken::Expression:
+            return "expression";
         default:
             PLY_ASSERT(0); // shouldn't get here
             return "???";
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
index 61af8b2..eb352ce 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
@@ -233,7 +233,9 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
             if (optional) {
                 pushBackToken(parser, startToken);
             } else {
-                PLY_ASSERT(0);
+                // expected expression
+                parser->error(true, {ParseError::Expected, startToken, ExpectedToken::Expression});
+                pushBackToken(parser, startToken);
             }
             return {};
         }
diff --git a/repos/plywood/src/cpp/ply-cpp/Parser.h b/repos/plywood/src/cpp/ply-cpp/Parser.h
index 6e3f08f..e3ac839 100644
--- a/repos/plywood/src/cpp/ply-cpp/Parser.h
+++ b/repos/plywood/src/cpp/ply-cpp/Parser.h
@@ -88,6 +88,7 @@ enum class ExpectedToken {
     TemplateParameterDecl,
     TypeSpecifier,
     ClassKeyword,
+    Expression,
 };
 
 struct ParseError : BaseError {
diff --git a/repos/plywood/src/cpp/ply-cpp/codegen/Parser.inl b/repos/plywood/src/cpp/ply-cpp/codegen/Parser.inl
index 265fdc5..f6d12e4 100644
--- a/repos/plywood/src/cpp/ply-cpp/codegen/Parser.inl
+++ b/repos/plywood/src/cpp/ply-cpp/codegen/Parser.inl
@@ -35,6 +35,7 @@ PLY_ENUM_IDENTIFIER(ParameterType)
 PLY_ENUM_IDENTIFIER(TemplateParameterDecl)
 PLY_ENUM_IDENTIFIER(TypeSpecifier)
 PLY_ENUM_IDENTIFIER(ClassKeyword)
+PLY_ENUM_IDENTIFIER(Expression)
 PLY_ENUM_END()
 
 PLY_ENUM_BEGIN(ply::cpp::, ParseError::Type)
-- 
2.43.0


From b6b08e787857d6aa981078d40c523fdfeb47dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:57 +0000
Subject: [PATCH 143/149] fix: accept an unnamed enum with an underlying type

"enum : int { a };" was reported as an error whose message was "error
message not implemented!". Only a scoped enum requires a name.
---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp             | 4 ++++
 .../plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index e79d516..d389617 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -157,6 +157,10 @@ void ParseError::writeMessage(OutStream* outs, const PPVisitedFiles* visitedFile
             *outs << "can't mix function definitions with other declarations\n";
             break;
         }
+        case ParseError::ScopedEnumRequiresName: {
+            *outs << "scoped enum requires a name\n";
+            break;
+        }
         case ParseError::MissingDeclaration: {
             // FIXME: This should only be a warning, but we don't have a warning system yet
             *outs << "declaration does not declare anything\n";
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index b928124..7caa368 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -791,7 +791,7 @@ void parseSpecifiersAndDeclarators(Parser* parser, grammar::Declaration::Simple&
 
                 Token sepToken = readToken(parser);
                 if (sepToken.type == Token::SingleColon) {
-                    if (en.qid.isEmpty()) {
+                    if (en.qid.isEmpty() && en.classKey.isValid()) {
                         parser->error(false, {ParseError::ScopedEnumRequiresName, sepToken});
                     }
                     en.basePunc = sepToken;
-- 
2.43.0


From 7dedf9a641be1fc4f827f3eb4c30dfe1e5cd5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:45 +0000
Subject: [PATCH 144/149] fix: give the error for a lone typename keyword a
 location

When no name follows typename, the error was built from an invalid
token, and writing its message failed an assertion.
---
 .../src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 7caa368..72b8a7c 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -914,8 +914,13 @@ void parseSpecifiersAndDeclarators(Parser* parser, grammar::Declaration::Simple&
                 // In C++, all declarations must be explicitly typed; there is no "default
                 // int". Therefore, this must be a simple type specifier.
                 if (typename_.isValid() && qid.nestedName.isEmpty()) {
-                    parser->error(true, {ParseError::Expected, qid.getFirstToken(),
-                                         ExpectedToken::NestedNamePrefix});
+                    Token badToken = qid.getFirstToken();
+                    if (!badToken.isValid()) {
+                        badToken = readToken(parser);
+                        pushBackToken(parser, badToken);
+                    }
+                    parser->error(
+                        true, {ParseError::Expected, badToken, ExpectedToken::NestedNamePrefix});
                 }
                 // FIXME: If mode == SpecDcorMode::Param, we should check at this point that qid
                 // actually refers to a type (if possible!). Consider for example (inside class
-- 
2.43.0


From d5dfb22675be0cd5d2a179bf64a098fbcbae24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:45 +0000
Subject: [PATCH 145/149] fix: continue after a nested name prefix that nothing
 follows

parseDeclarator reports the stray prefix in "int A::;", but then failed
an assertion that there was none.
---
 repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 72b8a7c..3e0d103 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -288,7 +288,6 @@ void parseDeclarator(Parser* parser, grammar::Declarator& dcor,
 
             parser->stopMutingErrors();
         } else if (token.type == Token::Identifier) {
-            PLY_ASSERT(qid.nestedName.isEmpty());
             PLY_ASSERT(token.identifier == "const" || token.identifier == "volatile" ||
                        token.identifier == "inline" || token.identifier == "static" ||
                        token.identifier == "friend");
@@ -307,7 +306,6 @@ void parseDeclarator(Parser* parser, grammar::Declarator& dcor,
             dcor.prod = prod;
         } else {
             // End of first phase of parsing a declarator.
-            PLY_ASSERT(qid.nestedName.isEmpty());
             if ((dcorFlags & DeclaratorFlags::AllowAbstract) == 0) {
                 // Note that we still allow "empty" declarators (in other words, abstract
                 // declarators with no DeclaratorProductions) even when AllowAbstract is not
-- 
2.43.0


From a5bc34c941d14d19e5dd8e8a0d4f1a68e1ee95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:45 +0000
Subject: [PATCH 146/149] fix: report errors that follow a type in a template
 argument list

The restore point was still active while the rest of the argument was
skipped, so that an error in it was dropped, and an assertion failed.
---
 repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
index 4d673b0..58a00de 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
@@ -73,6 +73,7 @@ Array<grammar::NestedNameComponent> parseNestedNameSpecifier(Parser* parser) {
                         parseSpecifiersAndDeclarators(parser, simple, SpecDcorMode::TypeID);
                         if (!rp.errorOccurred()) {
                             // Successfully parsed a type ID
+                            rp.cancel();
                             auto typeID = templateArg.type.typeID().switchTo();
                             typeID->declSpecifierSeq = std::move(simple.declSpecifierSeq);
                             PLY_ASSERT(simple.initDeclarators.numItems() == 1);
-- 
2.43.0


From e837327c5acb8af62ff60dca16ee03842c8e72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:45 +0000
Subject: [PATCH 147/149] fix: report a template without a declaration

It failed an assertion, and without assertions it was accepted.
---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp | 7 ++++++-
 repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp         | 4 ----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
index e1925a9..981ebdc 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
@@ -237,7 +237,12 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
                 pushBackToken(parser, token2);
             }
             parser->visor->doEnter(AnyObject::bind(&tmpl));
-            parseDeclaration(parser, enclosingClassName);
+            if (!parseDeclaration(parser, enclosingClassName)) {
+                // expected declaration
+                Token token3 = readToken(parser);
+                parser->error(true, {ParseError::Expected, token3, ExpectedToken::Declaration});
+                pushBackToken(parser, token3);
+            }
             parser->visor->doExit(AnyObject::bind(&tmpl));
             parser->visor->gotDeclaration(grammar::Declaration{std::move(tmpl)});
         } else if (token.identifier == "using") {
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
index fcfc637..53156b0 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
@@ -10,10 +10,6 @@ namespace ply {
 namespace cpp {
 
 void ParseSupervisor::doExit(AnyObject node) {
-    if (auto* tmpl = node.safeCast<grammar::Declaration::Template_>()) {
-        PLY_ASSERT(tmpl->visor_decl); // Should have gotten declaration
-        PLY_UNUSED(tmpl);
-    }
     const AnyObject& scope = scopeStack.back();
     PLY_ASSERT(scope == node);
     PLY_UNUSED(scope);
-- 
2.43.0


From c6fc23491c06745ec6aed5cc06dbadf9515c9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:51 +0000
Subject: [PATCH 148/149] fix: stop reading a conversion function's type at a
 keyword

In "operator A friend ;", the keyword was read and put back forever. As
the first word after operator, it failed an assertion.
---
 .../plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 3e0d103..d6a8fd9 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -76,13 +76,14 @@ PLY_NO_INLINE void parseConversionTypeID(Parser* parser,
                 pushBackToken(parser, token);
                 grammar::QualifiedID qid =
                     parseQualifiedID(parser, ParseQualifiedMode::RequireComplete);
+                if (qid.isEmpty())
+                    break; // Error was already logged
                 if (gotTypeSpecifier) {
                     // We already got a type specifier.
                     // This is not a breaking error; just ignore it and continue from here.
                     parser->error(false, {ParseError::TooManyTypeSpecifiers, qid.getFirstToken()});
                 } else {
                     gotTypeSpecifier = true;
-                    PLY_ASSERT(!qid.isEmpty()); // Shouldn't happen because token was an identifier
                     conv->declSpecifierSeq.append(new grammar::DeclSpecifier{
                         grammar::DeclSpecifier::TypeID{{}, std::move(qid)}});
                 }
-- 
2.43.0


From 9c0fc368746eec4292acc482cc3efc6b209821ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:11 +0000
Subject: [PATCH 149/149] fix: report decltype in a destructor name instead of
 failing an assertion

---
 repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
index 58a00de..defe152 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
@@ -162,14 +162,16 @@ grammar::QualifiedID parseQualifiedID(Parser* parser, ParseQualifiedMode mode) {
         Token token = readToken(parser);
         if (token.type == Token::Tilde) {
             Token token2 = readToken(parser);
-            if (token2.type != Token::Identifier) {
+            if (token2.type != Token::Identifier || token2.identifier == "decltype") {
                 // Expected class name after ~
+                // FIXME: Support decltype
                 parser->error(true, {ParseError::Expected, token2,
                                      ExpectedToken::DestructorClassName, token});
-                pushBackToken(parser, token2);
+                if (token2.type != Token::Identifier) {
+                    pushBackToken(parser, token2);
+                }
             } else {
                 auto dtor = qid.unqual.destructor().switchTo();
-                PLY_ASSERT(token2.identifier != "decltype"); // FIXME: Support this
                 dtor->tilde = token;
                 dtor->name = token2;
             }
-- 
2.43.0

