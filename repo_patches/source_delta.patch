From 6744e1e62a70751ae605446fb09916e34a64090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 01/29] hook: XAD_VERIF_CHUNK_SIZE overrides the default tape
 chunk size (off by default)

---
 src/XAD/ChunkContainer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 9e359cc..3835bc7 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -112,7 +112,12 @@ inline void aligned_free(void* p) { free(p); }
 namespace xad
 {
 
+#ifdef XAD_VERIF_CHUNK_SIZE
+// verification hook: small default chunks, so that short recordings cross chunk boundaries
+template <class T, std::size_t ChunkSize = XAD_VERIF_CHUNK_SIZE>
+#else
 template <class T, std::size_t ChunkSize = 1024U * 1024U * 8U>
+#endif
 class ChunkContainer
 {
   public:
-- 
2.43.0


From 5cbd7afa2ef7b9cecedd6b078a9b91cac7a9f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 02/29] fix: size and clear the derivatives before rolling back

Seeding a derivative and then recording further statements left the
derivatives vector smaller than the slots on the tape, so the rollback read
and wrote past its end.
---
 src/Tape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 88b2c43..34218f6 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -494,6 +494,9 @@ void Tape<T>::computeAdjoints()
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
+    // variables may have been registered since the derivatives were last accessed
+    initDerivatives();
+
     position_type start = position_type(statement_.size() - 1);
     LOG_DEBUG("number checkpoints: " << checkpoints_.size());
     for (unsigned i = unsigned(checkpoints_.size()); i > 0; --i)
-- 
2.43.0


From 425184b42b16ab0dbddd68a2cbe6599f86480cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:56 +0000
Subject: [PATCH 03/29] fix: clearDerivativesAfter keeps the derivatives of all
 earlier variables

It used the slot of the single statement at the given position as the limit,
which lost the derivatives of variables with higher slots when that statement
overwrites an earlier variable, and of all variables at the start of a
recording.  It also truncated the storage that a later rollback over the
remaining statements still writes to.
---
 src/Tape.cpp     | 23 ++++++++++++++++++-----
 src/XAD/Tape.hpp | 12 +++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 34218f6..2576173 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -349,6 +349,7 @@ void Tape<T>::newNestedRecording()
     newr.opStartPos_ = slot_type(multiplier_.size());
     newr.derivativesInitialized_ = false;
     newr.startDerivative_ = currentRec_->maxDerivative_;
+    newr.startSlots_ = newr.startDerivative_;
     nestedRecordings_.push(newr);
 
     currentRec_ = &nestedRecordings_.top();
@@ -374,6 +375,8 @@ void Tape<T>::newRecording()
     checkpoints_.clear();
     foldSubrecordings();
     currentRec_->maxDerivative_ = currentRec_->iDerivative_ + 1;
+    currentRec_->derivativeLimit_ = currentRec_->maxDerivative_;
+    currentRec_->startSlots_ = currentRec_->iDerivative_;
     statement_.push_back(std::make_pair(size_type(slot_.size()), slot_type(INVALID_SLOT)));
     currentRec_->derivativesInitialized_ = false;
 }
@@ -406,7 +409,7 @@ void Tape<T>::initDerivatives()
 template <class T>
 T& Tape<T>::derivative(slot_type s)
 {
-    if (s >= currentRec_->maxDerivative_)
+    if (s >= currentRec_->derivativeLimit_)
         throw OutOfRange("given derivative slot is out of range - did you register the outputs?");
 
     initDerivatives();
@@ -417,7 +420,7 @@ template <class T>
 const T& Tape<T>::derivative(slot_type s) const
 {
 #ifndef NDEBUG
-    if (s >= currentRec_->maxDerivative_)
+    if (s >= currentRec_->derivativeLimit_)
         throw OutOfRange("given derivative slot is out of range");
     if (!currentRec_->derivativesInitialized_)
         throw DerivativesNotInitialized(
@@ -741,9 +744,19 @@ bool Tape<T>::haveCallbacks() const
 template <class T>
 void Tape<T>::clearDerivativesAfter(position_type pos)
 {
-    auto& st = statement_[pos];
-    derivatives_.resize(st.second + 1);
-    currentRec_->maxDerivative_ = st.second + 1;
+    // the statement at pos may well assign to a variable with a low slot (or to none at all), so look
+    // for the highest slot that was registered up to pos
+    slot_type limit = currentRec_->startSlots_;
+    for (position_type i = currentRec_->statementStartPos_; i <= pos; ++i)
+    {
+        auto slot = statement_[i].second;
+        if (slot != INVALID_SLOT)
+            limit = (std::max)(limit, slot + 1);
+    }
+    if (derivatives_.size() > limit)
+        std::fill(derivatives_.begin() + limit, derivatives_.end(), T());
+    // the statements after pos still refer to these slots, so they are hidden but not removed
+    currentRec_->derivativeLimit_ = limit;
 }
 
 template <class T>
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index bd4c709..76fb3e1 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -205,10 +205,12 @@ class Tape
     {
         ++currentRec_->numDerivatives_;
 #ifdef XAD_TAPE_REUSE_SLOTS
-        return registerVariableReuseSlots();
+        slot_type slot = registerVariableReuseSlots();
 #else
-        return registerVariableAtEnd();
+        slot_type slot = registerVariableAtEnd();
 #endif
+        currentRec_->derivativeLimit_ = (std::max)(currentRec_->derivativeLimit_, slot + 1);
+        return slot;
     }
 
     XAD_INLINE void unregisterVariable(slot_type slot)
@@ -280,6 +282,8 @@ class Tape
             : numDerivatives_(),
               iDerivative_(),
               maxDerivative_(),
+              derivativeLimit_(),
+              startSlots_(),
               statementStartPos_(1),
               opStartPos_(),
               startDerivative_(),
@@ -294,7 +298,9 @@ class Tape
         }
         slot_type numDerivatives_;
         slot_type iDerivative_;
-        slot_type maxDerivative_;
+        slot_type maxDerivative_;    // number of slots that may be in use on the tape
+        slot_type derivativeLimit_;  // slots from here on are out of range (clearDerivativesAfter)
+        slot_type startSlots_;       // slots registered before this recording started
         slot_type statementStartPos_;
         slot_type opStartPos_;
         slot_type startDerivative_;
-- 
2.43.0


From eb0b2e6d76fb2185708982739c76590bbdb92561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 04/29] fix: variables registered in a checkpoint callback get
 slots of their own

They could be given slots of already destroyed variables whose adjoints were
still pending in the outer rollback.  With slot reuse, ranges freed within a
nested recording were also left behind when the recording ended.
---
 src/Tape.cpp     | 58 ++++++++++++++++++++++++++++++++++++++++++++++--
 src/XAD/Tape.hpp |  1 +
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 2576173..a343d5c 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -205,7 +205,7 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 reusable_ranges_.emplace_back(slot, slot + 1);
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
-                if (reusable_ranges_.size() == 1)
+                if (currentRec_->startRange_ == reusable_ranges_.end())
                     currentRec_->startRange_ = currentRec_->latestRange_;
             }
             else
@@ -344,6 +344,8 @@ void Tape<T>::newNestedRecording()
     // clearDerivativesAfter(position_type(statement_.size())-1);
     derivatives_.resize(currentRec_->prevMax_);
     currentRec_->maxDerivative_ = currentRec_->prevMax_;
+    currentRec_->derivativeLimit_ =
+        (std::min)(currentRec_->derivativeLimit_, currentRec_->maxDerivative_);
 
     newr.statementStartPos_ = slot_type(statement_.size());
     newr.opStartPos_ = slot_type(multiplier_.size());
@@ -494,6 +496,55 @@ void Tape<T>::computeAdjoints()
     computeAdjointsTo(currentRec_->statementStartPos_ - 1);
 }
 
+// Slots of variables that have been destroyed may still hold pending adjoints during a rollback,
+// so variables registered within a callback have to go to slots that no statement refers to.
+template <class T>
+struct Tape<T>::FreshSlotsScope
+{
+    explicit FreshSlotsScope(Tape& tape)
+        : tape_(tape),
+          rec_(*tape.currentRec_),
+          next_(rec_.iDerivative_),
+          max_(rec_.maxDerivative_),
+          firstFresh_((std::max)(next_, max_))
+#ifdef XAD_TAPE_REUSE_SLOTS
+          ,
+          startRange_(rec_.startRange_)
+#endif
+    {
+        rec_.iDerivative_ = firstFresh_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+        rec_.startRange_ = rec_.latestRange_ = tape_.reusable_ranges_.end();
+#endif
+    }
+
+    ~FreshSlotsScope()
+    {
+#ifdef XAD_TAPE_REUSE_SLOTS
+        if (startRange_ != tape_.reusable_ranges_.end())
+            rec_.startRange_ = startRange_;
+        rec_.latestRange_ = tape_.reusable_ranges_.end();
+#endif
+        if (rec_.iDerivative_ == firstFresh_)  // otherwise variables are left behind
+        {
+            rec_.iDerivative_ = next_;
+            rec_.maxDerivative_ = max_;
+            rec_.derivativeLimit_ = (std::min)(rec_.derivativeLimit_, max_);
+        }
+    }
+
+  private:
+    FreshSlotsScope(const FreshSlotsScope&) = delete;
+    FreshSlotsScope& operator=(const FreshSlotsScope&) = delete;
+
+    Tape& tape_;
+    SubRecording& rec_;
+    const slot_type next_, max_, firstFresh_;
+#ifdef XAD_TAPE_REUSE_SLOTS
+    const range_list::iterator startRange_;
+#endif
+};
+
 template <class T>
 void Tape<T>::computeAdjointsTo(position_type pos)
 {
@@ -521,7 +572,10 @@ void Tape<T>::computeAdjointsTo(position_type pos)
         // subrecording
         currentRec_->prevMax_ = currentRec_->maxDerivative_;
 
-        cb->computeAdjoint(this);
+        {
+            FreshSlotsScope fresh(*this);
+            cb->computeAdjoint(this);
+        }
         currentRec_->prevMax_ = INVALID_SLOT;
         // std::cout << "********Reset to " << end-1 << std::endl;
 
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 76fb3e1..104666f 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -311,6 +311,7 @@ class Tape
 #endif
         bool derivativesInitialized_;
     };
+    struct FreshSlotsScope;
     std::stack<SubRecording> nestedRecordings_;
     SubRecording* currentRec_;
 };
-- 
2.43.0


From e9144a9179ea633a352fd8d0072224bee4479e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 05/29] fix: chunk container iterators cross any number of
 chunks

The iterator knew one following chunk only, and iterator_at read past the end of the
chunk list when its element was in the last chunk.
---
 src/XAD/ChunkContainer.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 3835bc7..5cf92b1 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -331,10 +331,12 @@ class ChunkContainer
     struct iterator
     {
         pointer point_;
-        pointer next_chunk_;
+        char* const* next_chunk_;
+        char* const* end_chunk_;
         int space_left_;
-        explicit iterator(pointer point = nullptr, int space_left = 0, pointer next = NULL)
-            : point_(point), next_chunk_(next), space_left_(space_left)
+        explicit iterator(pointer point = nullptr, int space_left = 0,
+                          char* const* next = nullptr, char* const* end = nullptr)
+            : point_(point), next_chunk_(next), end_chunk_(end), space_left_(space_left)
         {
         }
 
@@ -343,7 +345,8 @@ class ChunkContainer
             ++point_;
             if (--space_left_ == 0)
             {
-                point_ = next_chunk_;
+                point_ = next_chunk_ == end_chunk_ ? nullptr
+                                                   : reinterpret_cast<pointer>(*next_chunk_++);
                 space_left_ = chunk_size;
             }
             return *this;
@@ -364,8 +367,10 @@ class ChunkContainer
     {
         auto nc = getHighPart(i);
         auto lc = getLowPart(i);
+        if (nc >= chunkList_.size())
+            return iterator();  // past the last allocated chunk
         return iterator(&reinterpret_cast<value_type*>(chunkList_[nc])[lc], int(chunk_size - lc),
-                        reinterpret_cast<value_type*>(*(&chunkList_[nc] + 1)));
+                        chunkList_.data() + nc + 1, chunkList_.data() + chunkList_.size());
     }
 
     void assign(size_type s, const_reference v = value_type())
-- 
2.43.0


From 6d4474f485c203e14ce066602e182f99323a943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 06/29] fix: moved-from chunk container is empty

It kept its position but no chunks, so destroying, clearing or assigning to it accessed
elements that are not there.
---
 src/XAD/ChunkContainer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 5cf92b1..0e47712 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -140,6 +140,7 @@ class ChunkContainer
     ChunkContainer(ChunkContainer&& o) noexcept
         : chunkList_(std::move(o.chunkList_)), chunk_(o.chunk_), idx_(o.idx_)
     {
+        o.release_();
     }
 
     ChunkContainer& operator=(ChunkContainer&& o)
@@ -148,6 +149,7 @@ class ChunkContainer
         chunkList_ = std::move(o.chunkList_);
         chunk_ = o.chunk_;
         idx_ = o.idx_;
+        o.release_();
         return *this;
     }
 
@@ -459,6 +461,13 @@ class ChunkContainer
 
     void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
 
+    // after moving from this container: it holds nothing any more
+    void release_() noexcept
+    {
+        chunkList_.clear();
+        chunk_ = idx_ = 0;
+    }
+
     void _free_memory()
     {
         clear();
-- 
2.43.0


From 39e40e5682a141779ca601022082838544a5400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 07/29] fix: chunk container resizing, assigning and extending
 at chunk boundaries

Growing to a multiple of the chunk size made a chunk current that was not allocated, so
the next append wrote out of bounds; assign() accessed such chunks, filled the wrong
chunk when shrinking; uninitialized_extend() crossed one chunk boundary at most.
---
 src/XAD/ChunkContainer.hpp | 67 ++++++++++----------------------------
 1 file changed, 18 insertions(+), 49 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index 0e47712..cda3c24 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -226,12 +226,7 @@ class ChunkContainer
     void uninitialized_extend(size_type i)
     {
         reserve(size() + i);
-        idx_ += i;
-        if (idx_ > chunk_size)
-        {
-            ++chunk_;
-            idx_ = idx_ - chunk_size;
-        }
+        set_size_(size() + i);
     }
 
     void push_back(const_reference v)
@@ -268,7 +263,7 @@ class ChunkContainer
 
         // now we have something bigger
         reserve(s);
-        size_type nc_new = getHighPart(s);
+        size_type nc_new = getHighPart(s - 1);  // the chunk of the last element
         size_type nc_old = chunk_;
         size_type ix = idx_;
         for (size_type i = nc_old; i < nc_new; ++i)
@@ -278,11 +273,10 @@ class ChunkContainer
             ix = 0;
         }
 
-        size_type lc = getLowPart(s);  // maybe 0
+        size_type lc = getLowPart(s - 1) + 1;
         std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc_new]) + ix, lc - ix,
                                   v);
-        idx_ = lc;
-        chunk_ = nc_new;
+        set_size_(s);
     }
 
     template <class It>
@@ -383,44 +377,14 @@ class ChunkContainer
             return;
         }
 
-        check_space(s);
-        size_type nc = getHighPart(s);
-        size_type lc = getLowPart(s);
-
-        if (s <= size())
-        {
-            if (s < size())
-                destructAllImpl<std::is_trivially_destructible<value_type>::value>::make(this, s,
-                                                                                         size());
-            // all assignments
-            for (size_type i = 0; i < nc; ++i)
-                std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                          reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-            std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                      reinterpret_cast<value_type*>(chunkList_[chunk_]) + lc, v);
-            chunk_ = nc;
-            idx_ = lc;
-
-            return;
-        }
-
-        // here we have something bigger than it was - assign existing and fill rest
-        for (int i = 0; i < chunk_; ++i)
-            std::fill(reinterpret_cast<value_type*>(chunkList_[i]),
-                      reinterpret_cast<value_type*>(chunkList_[i]) + chunk_size, v);
-        std::fill(reinterpret_cast<value_type*>(chunkList_[chunk_]),
-                  reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_, v);
-
-        size_type fillsize = nc > chunk_ ? chunk_size : lc;
-        std::uninitialized_fill(reinterpret_cast<value_type*>(chunkList_[chunk_]) + idx_,
-                                reinterpret_cast<value_type*>(chunkList_[chunk_]) + fillsize, v);
-        for (size_type i = chunk_ + 1; i < nc; ++i)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
-        if (nc > chunk_)
-            std::uninitialized_fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), lc, v);
-        chunk_ = nc;
-        idx_ = lc;
-        return;
+        // assign the elements that stay, then cut or extend
+        size_type n = std::min(s, size());
+        size_type nc = getHighPart(n);
+        for (size_type i = 0; i < nc; ++i)
+            std::fill_n(reinterpret_cast<value_type*>(chunkList_[i]), chunk_size, v);
+        if (getLowPart(n) > 0)
+            std::fill_n(reinterpret_cast<value_type*>(chunkList_[nc]), getLowPart(n), v);
+        resize(s, v);
     }
 
     reference operator[](size_type i)
@@ -459,7 +423,12 @@ class ChunkContainer
         }
     }
 
-    void check_space(size_type i) { reserve(chunk_ * chunk_size + idx_ + i); }
+    // sets the position past element s - 1, in that element's chunk - the next one may not exist
+    void set_size_(size_type s)
+    {
+        chunk_ = s == 0 ? 0 : getHighPart(s - 1);
+        idx_ = s == 0 ? 0 : getLowPart(s - 1) + 1;
+    }
 
     // after moving from this container: it holds nothing any more
     void release_() noexcept
-- 
2.43.0


From d6f16c1dfebd09f1e93f99f4107d93e7c7435d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 08/29] fix: moving a tape that is active or owns callbacks

Moving from the active tape threw TapeAlreadyActive from a noexcept function, ending the
program; move assignment leaked the callbacks the target owned; with slot reuse, the
recordings kept iterators to the end of the moved-from tape's list.
---
 src/Tape.cpp     | 48 ++++++++++++++++++++++++++++++++++++------------
 src/XAD/Tape.hpp |  1 +
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index a343d5c..5075a9c 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -64,18 +64,18 @@ Tape<T>::Tape(Tape&& o) noexcept
 #ifdef XAD_TAPE_REUSE_SLOTS
       reusable_ranges_(std::move(o.reusable_ranges_)),
 #endif
-      nestedRecordings_(std::move(o.nestedRecordings_)),
-      currentRec_(o.currentRec_)
+      currentRec_(nullptr)
 {
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    moveRecordings(o);
 }
 
 template <class T>
 Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 {
+    if (this == &o)
+        return *this;
+    for (auto p : callbacks_) delete p;
+    callbacks_.clear();
     multiplier_ = std::move(o.multiplier_);
     slot_ = std::move(o.slot_);
     statement_ = std::move(o.statement_);
@@ -85,15 +85,39 @@ Tape<T>& Tape<T>::operator=(Tape&& o) noexcept
 #ifdef XAD_TAPE_REUSE_SLOTS
     reusable_ranges_ = std::move(o.reusable_ranges_);
 #endif
-    nestedRecordings_ = std::move(o.nestedRecordings_);
-    currentRec_ = o.currentRec_;
-    if (o.isActive())
-        activate();
-    else
-        deactivate();
+    while (!nestedRecordings_.empty()) nestedRecordings_.pop();
+    moveRecordings(o);
     return *this;
 }
 
+// completes moving from o: takes over its recordings and whether it is active
+template <class T>
+void Tape<T>::moveRecordings(Tape& o)
+{
+    std::stack<SubRecording> inner;
+    for (; !o.nestedRecordings_.empty(); o.nestedRecordings_.pop())
+    {
+        inner.push(o.nestedRecordings_.top());
+#ifdef XAD_TAPE_REUSE_SLOTS
+        // the list's elements have moved here, but not its end
+        auto& rec = inner.top();
+        if (rec.startRange_ == o.reusable_ranges_.end())
+            rec.startRange_ = reusable_ranges_.end();
+        if (rec.latestRange_ == o.reusable_ranges_.end())
+            rec.latestRange_ = reusable_ranges_.end();
+#endif
+    }
+    for (; !inner.empty(); inner.pop()) nestedRecordings_.push(inner.top());
+    currentRec_ = nestedRecordings_.empty() ? nullptr : &nestedRecordings_.top();
+    o.currentRec_ = nullptr;
+
+    bool active = o.isActive();
+    o.deactivate();
+    deactivate();
+    if (active)
+        activate();
+}
+
 template <class T>
 Tape<T>::~Tape()
 {
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 104666f..611c68e 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -273,6 +273,7 @@ class Tape
     range_list reusable_ranges_;
 #endif
 
+    void moveRecordings(Tape& o);
     void foldSubrecordings();
     void foldSubrecording();
 
-- 
2.43.0


From 0d386ab486e766883f6f70b910359f59daa2d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:37 +0000
Subject: [PATCH 09/29] fix: adjoint increments and output adjoint reads honour
 cleared derivatives

---
 src/Tape.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 5075a9c..1b6c2b8 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -732,6 +732,9 @@ void Tape<T>::incrementAdjoint(slot_type slot, const T& x)
     if (slot >= derivatives_.size())
         throw OutOfRange("adjoint to be incremented is out of range");
 
+    // outer adjoints accessed from a nested recording are initialised independently of it
+    if (slot >= currentRec_->startDerivative_)
+        initDerivatives();
     derivatives_[slot] += x;
 }
 
@@ -843,6 +846,8 @@ T Tape<T>::getAndResetOutputAdjoint(slot_type slot)
     if (slot >= slot_type(derivatives_.size()))
         throw OutOfRange("Requested output slot does not exist");
 
+    if (slot >= currentRec_->startDerivative_)
+        initDerivatives();
     T ret = derivatives_[slot];
     derivatives_[slot] = 0.0;
     return ret;
-- 
2.43.0


From 170b557f24f035a018144f0300c8d1208ec6415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 10/29] fix: unary plus of an expression keeps its type

---
 src/XAD/UnaryOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index fcb6592..cdb6141 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -40,9 +40,9 @@ struct AReal;
 
 // unary plus - does nothing
 template <class Scalar, class Expr>
-XAD_INLINE const Expression<Scalar, Expr>& operator+(const Expression<Scalar, Expr>& a)
+XAD_INLINE const Expr& operator+(const Expression<Scalar, Expr>& a)
 {
-    return a;
+    return a.derived();
 }
 
 template <class Scalar>
-- 
2.43.0


From 78984cdd886aad4c7857a46eecf79b68ac87c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 11/29] fix: derivatives of pow for zero exponent and zero base

---
 src/XAD/BinaryMathFunctors.hpp | 3 ++-
 src/XAD/UnaryMathFunctors.hpp  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 9c9fd51..4a48efd 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -41,7 +41,8 @@ struct pow_op
     }
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar&, const Scalar& v) const
     {
-        return log(a) * v;
+        // also for base 0, where the logarithm is infinite
+        return v == Scalar() ? Scalar() : Scalar(log(a) * v);
     }
 };
 
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index e919c89..ff4aa74 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -191,7 +191,10 @@ struct fabs_op : abs_op<Scalar>
         };                                                                                         \
     };
 
-XAD_MAKE_UNARY_BINFUNCTOR(pow, Scalar(b) * Scalar(pow(a, b - T2(1))), log(b) * v)
+// a zero exponent gives a constant, and a vanishing power has a zero derivative also for base 0
+XAD_MAKE_UNARY_BINFUNCTOR(pow,
+                          b == T2() ? Scalar() : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
+                          v == Scalar() ? Scalar() : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
                           -Scalar(b) / (a * a + Scalar(b * b)))
-- 
2.43.0


From 97b75c8ff4cc8e9dc4b63b78b68a35547c6eab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 12/29] fix: ldexp, frexp and scalbn for exponents outside the
 range of int shifts

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 src/XAD/UnaryOperators.hpp    | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index ff4aa74..c99956e 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -206,7 +206,7 @@ struct ldexp_op
 {
     XAD_INLINE explicit ldexp_op(int exp) : exp_(exp) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const { return ldexp(a, exp_); }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(1 << exp_); }
+    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(ldexp(Scalar(1), exp_)); }
     int exp_;
 };
 
@@ -220,7 +220,7 @@ struct frexp_op
         // we assume that operator() and derivative are called in succession and in
         // this order, which is always the case in XAD. Therefore we can read the
         // value in *exp_ here to calculate the derivative
-        return Scalar(1.0) / Scalar(1 << *exp_);
+        return Scalar(ldexp(Scalar(1), -*exp_));
     }
     int* exp_;
 };
diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index cdb6141..5c1b330 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -450,9 +450,8 @@ template <class Scalar, class Derived>
 XAD_INLINE typename ExprTraits<Derived>::value_type scalbn(const Expression<Scalar, Derived>& x,
                                                            int exp)
 {
-    using std::scalbn;
     using T = typename ExprTraits<Derived>::value_type;
-    return T(x * scalbn(1.0, exp));
+    return T(ldexp(x.derived(), exp));
 }
 
 template <class Scalar, class Derived, class T2>
-- 
2.43.0


From ac31764d49d24f41717f4fdb75c1f851de402562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 13/29] fix: atan2 derivative with integral or lower-precision
 passive operands

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index c99956e..d796704 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -196,8 +196,8 @@ XAD_MAKE_UNARY_BINFUNCTOR(pow,
                           b == T2() ? Scalar() : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
                           v == Scalar() ? Scalar() : Scalar(log(b) * v))
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
-XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b * b)),
-                          -Scalar(b) / (a * a + Scalar(b * b)))
+XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
+                          -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
 XAD_MAKE_UNARY_BINFUNCTOR(hypot, Scalar(a) / v, Scalar(a) / v)
 
-- 
2.43.0


From 73e04300233b502bd6ed14d66bf6a2ee22a45b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 14/29] fix: derivatives of fmod, remainder and remquo by the
 divisor

---
 src/XAD/BinaryMathFunctors.hpp | 24 +++++++++++++-----------
 src/XAD/UnaryMathFunctors.hpp  | 21 ++++++++++-----------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/XAD/BinaryMathFunctors.hpp b/src/XAD/BinaryMathFunctors.hpp
index 4a48efd..3a8c3e5 100644
--- a/src/XAD/BinaryMathFunctors.hpp
+++ b/src/XAD/BinaryMathFunctors.hpp
@@ -218,7 +218,11 @@ struct fmod_op
 {
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const { return fmod(a, b); }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const { return -floor(a / b); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the quotient is recovered from the result, which is exact
+        return Scalar(-round((a - Scalar(fmod(a, b))) / b));
+    }
 };
 
 template <class Scalar>
@@ -266,28 +270,26 @@ struct remainder_op
     XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        XAD_UNUSED_VARIABLE(remquo(a, b, &n_));
-        return Scalar(-n_);
+        return Scalar(-round((a - Scalar(remainder(a, b))) / b));
     }
 };
 
 template <class Scalar>
 struct remquo_op
 {
-    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo), q_() {}
+    XAD_INLINE explicit remquo_op(int* quo) : quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a, const Scalar& b) const
     {
         using std::remquo;
-        Scalar v = remquo(a, b, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(a, b, quo_);
     }
     XAD_INLINE Scalar derivative_a(const Scalar&, const Scalar&) const { return Scalar(1); }
-    XAD_INLINE Scalar derivative_b(const Scalar&, const Scalar&) const { return Scalar(-q_); }
+    XAD_INLINE Scalar derivative_b(const Scalar& a, const Scalar& b) const
+    {
+        // the value in quo only holds the low-order bits of the quotient
+        return Scalar(-round((a - Scalar(remainder(a, b))) / b));
+    }
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar>
diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index d796704..58310e4 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -195,7 +195,8 @@ struct fabs_op : abs_op<Scalar>
 XAD_MAKE_UNARY_BINFUNCTOR(pow,
                           b == T2() ? Scalar() : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
                           v == Scalar() ? Scalar() : Scalar(log(b) * v))
-XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -floor(Scalar(b) / a))
+// the quotient is recovered from the result, which is exact
+XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
                           -Scalar(b) / (a * a + Scalar(b) * Scalar(b)))
 XAD_MAKE_UNARY_BINFUNCTOR(nextafter, Scalar(1), Scalar(0))
@@ -378,10 +379,7 @@ struct scalar_remainder1_op
     XAD_INLINE Scalar derivative(const Scalar& a) const
     {
         // function is rare enough that there's no need to optimize this better
-        int n_;
-        using std::remquo;
-        (void)remquo(b_, a, &n_);
-        return Scalar(-n_);
+        return Scalar(-round((Scalar(b_) - Scalar(remainder(b_, a))) / a));
     }
     T2 b_;
 };
@@ -398,18 +396,19 @@ struct scalar_remainder2_op
 template <class Scalar, class T2>
 struct scalar_remquo1_op
 {
-    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo), q_() {}
+    XAD_INLINE scalar_remquo1_op(const T2& b, int* quo) : b_(b), quo_(quo) {}
     XAD_INLINE Scalar operator()(const Scalar& a) const
     {
         using std::remquo;
-        Scalar v = remquo(b_, a, &q_);
-        *quo_ = q_;
-        return v;
+        return remquo(b_, a, quo_);
+    }
+    XAD_INLINE Scalar derivative(const Scalar& a) const
+    {
+        // the value in quo only holds the low-order bits of the quotient
+        return Scalar(-round((Scalar(b_) - Scalar(remainder(b_, a))) / a));
     }
-    XAD_INLINE Scalar derivative(const Scalar&) const { return Scalar(-q_); }
     T2 b_;
     int* quo_;
-    mutable int q_;
 };
 
 template <class Scalar, class T2>
-- 
2.43.0


From e381dac2d09966fbbe3dadfd90afed74613d3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 15/29] fix: max and min of two expressions of the same type

---
 src/XAD/BinaryOperators.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/XAD/BinaryOperators.hpp b/src/XAD/BinaryOperators.hpp
index 725eb8d..f907ffb 100644
--- a/src/XAD/BinaryOperators.hpp
+++ b/src/XAD/BinaryOperators.hpp
@@ -29,6 +29,7 @@
 #include <XAD/BinaryMathFunctors.hpp>
 
 #include <XAD/BinaryOperatorMacros.hpp>
+#include <XAD/UnaryExpr.hpp>
 #include <XAD/Macros.hpp>
 
 namespace xad
@@ -49,6 +50,30 @@ XAD_BINARY_OPERATOR(hypot, hypot_op)
 XAD_BINARY_OPERATOR(smooth_abs, smooth_abs_op)
 XAD_BINARY_OPERATOR(nextafter, nextafter_op)
 
+// operands of the same expression type would otherwise prefer the std versions
+#define XAD_BINARY_SAME_EXPR(_op, func)                                                            \
+    template <class Scalar, class Op, class Expr>                                                  \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, UnaryExpr<Scalar, Op, Expr>,                       \
+                          UnaryExpr<Scalar, Op, Expr>>(_op)(                                       \
+        const UnaryExpr<Scalar, Op, Expr>& a1, const UnaryExpr<Scalar, Op, Expr>& b1)              \
+    {                                                                                              \
+        typedef UnaryExpr<Scalar, Op, Expr> E;                                                     \
+        return BinaryExpr<Scalar, func<Scalar>, E, E>(a1, b1);                                     \
+    }                                                                                              \
+    template <class Scalar, class Op, class Expr1, class Expr2>                                    \
+    XAD_INLINE BinaryExpr<Scalar, func<Scalar>, BinaryExpr<Scalar, Op, Expr1, Expr2>,              \
+                          BinaryExpr<Scalar, Op, Expr1, Expr2>>(_op)(                              \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& a1,                                            \
+        const BinaryExpr<Scalar, Op, Expr1, Expr2>& b1)                                            \
+    {                                                                                              \
+        typedef BinaryExpr<Scalar, Op, Expr1, Expr2> E;                                            \
+        return BinaryExpr<Scalar, func<Scalar>, E, E>(a1, b1);                                     \
+    }
+
+XAD_BINARY_SAME_EXPR(max, max_op)
+XAD_BINARY_SAME_EXPR(min, min_op)
+#undef XAD_BINARY_SAME_EXPR
+
 // note - this is C++11 only
 template <class T1, class T2, class T3>
 XAD_INLINE auto smooth_max(const T1& x, const T2& y, const T3& c)
-- 
2.43.0


From 0677bc3e45ec9415be540292d675f1d59dbea314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 16/29] fix: derivatives of pow with a lower-precision passive
 operand

---
 src/XAD/UnaryMathFunctors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/XAD/UnaryMathFunctors.hpp b/src/XAD/UnaryMathFunctors.hpp
index 58310e4..4151861 100644
--- a/src/XAD/UnaryMathFunctors.hpp
+++ b/src/XAD/UnaryMathFunctors.hpp
@@ -193,8 +193,8 @@ struct fabs_op : abs_op<Scalar>
 
 // a zero exponent gives a constant, and a vanishing power has a zero derivative also for base 0
 XAD_MAKE_UNARY_BINFUNCTOR(pow,
-                          b == T2() ? Scalar() : Scalar(Scalar(b) * Scalar(pow(a, b - T2(1)))),
-                          v == Scalar() ? Scalar() : Scalar(log(b) * v))
+                          b == T2() ? Scalar() : Scalar(Scalar(b) * Scalar(pow(a, b - 1.0))),
+                          v == Scalar() ? Scalar() : Scalar(log(Scalar(b)) * v))
 // the quotient is recovered from the result, which is exact
 XAD_MAKE_UNARY_BINFUNCTOR(fmod, Scalar(1), -round((Scalar(b) - v) / a))
 XAD_MAKE_UNARY_BINFUNCTOR(atan2, Scalar(b) / (a * a + Scalar(b) * Scalar(b)),
-- 
2.43.0


From 1e0d92b8c270c05b89d8bd83461cabf49ed58bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 17/29] fix: copysign of negative zero and NaN

---
 src/XAD/UnaryOperators.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/XAD/UnaryOperators.hpp b/src/XAD/UnaryOperators.hpp
index 5c1b330..feac907 100644
--- a/src/XAD/UnaryOperators.hpp
+++ b/src/XAD/UnaryOperators.hpp
@@ -459,21 +459,10 @@ XAD_INLINE typename ExprTraits<Derived>::value_type copysign(const Expression<Sc
                                                              const T2& y)
 {
     using T = typename ExprTraits<Derived>::value_type;
-    bool sign = signbit(y);
-    if (x < 0)
-    {
-        if (sign)
-            return T(x);
-        else
-            return T(-x);
-    }
+    if (signbit(x.derived()) == signbit(y))
+        return T(x);
     else
-    {
-        if (sign)
-            return T(-x);
-        else
-            return T(x);
-    }
+        return T(-x);
 }
 
 template <class Scalar, class Derived>
-- 
2.43.0


From 03ef7b3ddb07cb460113d6d57bd02e4348d4dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 18/29] fix: adjoints with zero value but non-zero derivatives
 in higher-order tapes

The rollback skipped a statement whose adjoint compares equal to zero. For
nested types the comparison looks at the value only, so the derivatives of an
adjoint that happens to be zero were lost (e.g. the second derivative of
(2x)*(2x) at x=0 in AReal<FReal<double>> was 0).
---
 src/Tape.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 1b6c2b8..90529d8 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -631,6 +631,26 @@ XAD_FORCE_INLINE double fused_multiply_add(double a, double b, double c)
 
 XAD_FORCE_INLINE float fused_multiply_add(float a, float b, float c) { return std::fma(a, b, c); }
 
+// true if an adjoint contributes nothing, neither by its value nor by its derivatives
+// (for higher orders, an adjoint with zero value may well have non-zero derivatives)
+XAD_FORCE_INLINE bool is_zero_adjoint(double a) { return a == 0.0; }
+XAD_FORCE_INLINE bool is_zero_adjoint(float a) { return a == 0.0f; }
+
+template <class T>
+bool is_zero_adjoint(const AReal<T>& a);
+
+template <class T>
+bool is_zero_adjoint(const FReal<T>& a)
+{
+    return is_zero_adjoint(a.value()) && is_zero_adjoint(a.derivative());
+}
+
+template <class T>
+bool is_zero_adjoint(const AReal<T>& a)
+{
+    return !a.shouldRecord() && is_zero_adjoint(a.value());
+}
+
 }  // namespace detail
 
 template <class T>
@@ -665,7 +685,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = *it;
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = it[-1].first, ope = st.first; opi != ope; ++opi)
                 {
@@ -683,7 +703,7 @@ void Tape<T>::computeAdjointsToImpl(position_type pos, position_type start)
             auto st = chunk_it[0][endidx];
             auto a = derivatives_[st.second];
             derivatives_[st.second] = T();
-            if (a != T())
+            if (!detail::is_zero_adjoint(a))
             {
                 for (auto opi = prevendpoint, ope = st.first; opi != ope; ++opi)
                 {
-- 
2.43.0


From d760db8a1a7bb06b380b30ccaf2971da41088b3b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 19/29] fix: shape checks of Jacobian and Hessian matrices

Only the first row was checked (and dereferenced without there being one for
functions without outputs or inputs): matrices with other rows of a different
size were written out of bounds.
---
 src/XAD/Hessian.hpp    |  4 ++--
 src/XAD/Jacobian.hpp   |  4 ++--
 src/XAD/TypeTraits.hpp | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 3018d6d..d44c902 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -57,7 +57,7 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        !detail::all_rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -110,7 +110,7 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     unsigned int domain(static_cast<unsigned int>(vec.size()));
 
     if (std::distance(first, last) != domain ||
-        std::distance(first->cbegin(), first->cend()) != domain)
+        !detail::all_rows_have_size(first, last, domain))
         throw OutOfRange("Iterator not allocated enough space");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1c2778b..67af3dc 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -53,7 +53,7 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
                      std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
                      RowIterator first, RowIterator last, Tape<T> *tape = Tape<T>::getActive())
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::all_rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
@@ -104,7 +104,7 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
                      std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo,
                      RowIterator first, RowIterator last)
 {
-    if (std::distance(first->cbegin(), first->cend()) != vec.size())
+    if (!detail::all_rows_have_size(first, last, vec.size()))
         throw OutOfRange("Iterator not allocated enough space (domain)");
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
diff --git a/src/XAD/TypeTraits.hpp b/src/XAD/TypeTraits.hpp
index 17c2928..92d075f 100644
--- a/src/XAD/TypeTraits.hpp
+++ b/src/XAD/TypeTraits.hpp
@@ -24,7 +24,10 @@
 
 #pragma once
 
+#include <cstddef>
+#include <iterator>
 #include <type_traits>
+#include <utility>
 
 namespace xad
 {
@@ -42,5 +45,15 @@ struct has_begin : decltype(has_begin_impl<U>(0))
 {
 };
 
+// true if all rows of a matrix have the given number of elements
+template <class RowIterator>
+bool all_rows_have_size(RowIterator first, RowIterator last, std::size_t size)
+{
+    for (; first != last; ++first)
+        if (static_cast<std::size_t>(std::distance(first->cbegin(), first->cend())) != size)
+            return false;
+    return true;
+}
+
 }  // namespace detail
 }  // namespace xad
-- 
2.43.0


From d1edc9fd6f7ae51ee3bde1be835fc6fa76f5b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 20/29] fix: tapes used by computeJacobian and computeHessian

A tape given by the caller is made the active one while the function runs,
whichever tape was active before, and that one is active again afterwards,
also when the user function throws. The inputs are copied by value, as they
may be registered with another tape.
---
 src/XAD/Hessian.hpp    |  7 +++++--
 src/XAD/Jacobian.hpp   | 22 ++++++++++++++++++----
 src/XAD/TypeTraits.hpp | 23 +++++++++++++++++++++++
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index d44c902..69da68a 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -64,11 +64,14 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     std::unique_ptr<Tape<FReal<T>>> t;
     if (!tape)
     {
-        t = std::unique_ptr<Tape<FReal<T>>>(new Tape<FReal<T>>());
+        t = std::unique_ptr<Tape<FReal<T>>>(new Tape<FReal<T>>(false));
         tape = t.get();
     }
+    detail::ScopedActiveTape<Tape<FReal<T>>> active(tape);
 
-    auto v(vec);
+    // values only: not registered with the tape yet
+    std::vector<AReal<FReal<T>>> v(domain);
+    for (unsigned int i = 0; i < domain; i++) value(value(v[i])) = value(value(vec[i]));
     tape->registerInputs(v);
 
     auto row = first;
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 67af3dc..1e53209 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -29,11 +29,24 @@
 
 #include <functional>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <vector>
 
 namespace xad
 {
+namespace detail
+{
+// variables with the same values, but neither registered nor with derivatives of their own
+template <class Active>
+std::vector<Active> passive_copy(const std::vector<Active> &vec)
+{
+    std::vector<Active> ret(vec.size());
+    for (std::size_t i = 0; i < vec.size(); ++i) value(ret[i]) = value(vec[i]);
+    return ret;
+}
+}  // namespace detail
+
 // adj 2d vector
 template <typename T>
 std::vector<std::vector<T>> computeJacobian(
@@ -41,8 +54,8 @@ std::vector<std::vector<T>> computeJacobian(
     std::function<std::vector<AReal<T>>(std::vector<AReal<T>> &)> foo,
     Tape<T> *tape = Tape<T>::getActive())
 {
-    auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    auto v(detail::passive_copy(vec));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix), tape);
     return matrix;
 }
@@ -60,11 +73,12 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
     std::unique_ptr<Tape<T>> t;
     if (!tape)
     {
-        t = std::unique_ptr<Tape<T>>(new Tape<T>());
+        t = std::unique_ptr<Tape<T>>(new Tape<T>(false));
         tape = t.get();
     }
+    detail::ScopedActiveTape<Tape<T>> active(tape);
 
-    auto v(vec);
+    auto v(detail::passive_copy(vec));
 
     tape->registerInputs(v);
     tape->newRecording();
diff --git a/src/XAD/TypeTraits.hpp b/src/XAD/TypeTraits.hpp
index 92d075f..52f1f7d 100644
--- a/src/XAD/TypeTraits.hpp
+++ b/src/XAD/TypeTraits.hpp
@@ -55,5 +55,28 @@ bool all_rows_have_size(RowIterator first, RowIterator last, std::size_t size)
     return true;
 }
 
+// makes a tape the active one for the duration of a scope
+template <class Tape>
+class ScopedActiveTape
+{
+  public:
+    explicit ScopedActiveTape(Tape* tape) : previous_(Tape::getActive())
+    {
+        Tape::deactivateAll();
+        tape->activate();
+    }
+    ~ScopedActiveTape()
+    {
+        Tape::deactivateAll();
+        if (previous_)
+            previous_->activate();
+    }
+
+  private:
+    ScopedActiveTape(const ScopedActiveTape&) = delete;
+    ScopedActiveTape& operator=(const ScopedActiveTape&) = delete;
+    Tape* previous_;
+};
+
 }  // namespace detail
 }  // namespace xad
-- 
2.43.0


From 8cb2d63fef10fbaa23480eba75780e859fe87608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 21/29] fix: functions modifying their argument and seeded
 inputs in Jacobian and Hessian

Each evaluation of the user function gets a copy of the inputs to work on, and
derivatives which the caller left in the inputs no longer enter the results.
---
 src/XAD/Hessian.hpp  | 10 +++++++---
 src/XAD/Jacobian.hpp | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/XAD/Hessian.hpp b/src/XAD/Hessian.hpp
index 69da68a..949ef93 100644
--- a/src/XAD/Hessian.hpp
+++ b/src/XAD/Hessian.hpp
@@ -79,7 +79,8 @@ void computeHessian(const std::vector<AReal<FReal<T>>> &vec,
     {
         derivative(value(v[i])) = 1.0;
         tape->newRecording();
-        AReal<FReal<T>> y = foo(v);
+        auto x(v);  // the function may modify its argument
+        AReal<FReal<T>> y = foo(x);
         tape->registerOutput(y);
         value(derivative(y)) = 1.0;
         tape->computeAdjoints();
@@ -118,7 +119,9 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
-    auto v(vec);
+    // values only, without derivatives
+    std::vector<FReal<FReal<T>>> v(domain);
+    for (unsigned int i = 0; i < domain; i++) value(value(v[i])) = value(value(vec[i]));
 
     auto row = first;
     for (unsigned int i = 0; i < domain; i++, row++)
@@ -128,7 +131,8 @@ void computeHessian(const std::vector<FReal<FReal<T>>> &vec,
         for (unsigned int j = 0; j < domain; j++, col++)
         {
             derivative(value(v[j])) = 1.0;
-            FReal<FReal<T>> y = foo(v);
+            auto x(v);  // the function may modify its argument
+            FReal<FReal<T>> y = foo(x);
             *col = derivative(derivative(y));
             derivative(value(v[j])) = 0.0;
         }
diff --git a/src/XAD/Jacobian.hpp b/src/XAD/Jacobian.hpp
index 1e53209..1e50656 100644
--- a/src/XAD/Jacobian.hpp
+++ b/src/XAD/Jacobian.hpp
@@ -82,7 +82,8 @@ void computeJacobian(const std::vector<AReal<T>> &vec,
 
     tape->registerInputs(v);
     tape->newRecording();
-    auto y = foo(v);
+    auto x(v);  // the function may modify its argument
+    auto y = foo(x);
     unsigned int domain = static_cast<unsigned int>(vec.size()),
                  codomain = static_cast<unsigned int>(y.size());
     if (std::distance(first, last) != codomain)
@@ -106,8 +107,8 @@ std::vector<std::vector<T>> computeJacobian(
     const std::vector<FReal<T>> &vec,
     std::function<std::vector<FReal<T>>(std::vector<FReal<T>> &)> foo)
 {
-    auto v(vec);
-    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(v.size(), 0.0));
+    auto v(detail::passive_copy(vec));
+    std::vector<std::vector<T>> matrix(foo(v).size(), std::vector<T>(vec.size(), 0.0));
     computeJacobian(vec, foo, begin(matrix), end(matrix));
     return matrix;
 }
@@ -123,9 +124,10 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     static_assert(detail::has_begin<typename std::iterator_traits<RowIterator>::value_type>::value,
                   "RowIterator must dereference to a type that implements a begin() method");
 
-    auto v(vec);
+    auto v(detail::passive_copy(vec));
+    auto x(v);  // the function may modify its argument
     unsigned int domain = static_cast<unsigned int>(vec.size()),
-                 codomain = static_cast<unsigned int>(foo(v).size());
+                 codomain = static_cast<unsigned int>(foo(x).size());
 
     if (std::distance(first, last) != codomain)
         throw OutOfRange("Iterator not allocated enough space (codomain)");
@@ -133,9 +135,9 @@ void computeJacobian(const std::vector<FReal<T>> &vec,
     auto row = first;
     for (unsigned int i = 0; i < domain; i++)
     {
-        derivative(v[i]) = 1.0;
-        auto y = foo(v);
-        derivative(v[i]) = 0.0;
+        x = v;
+        derivative(x[i]) = 1.0;
+        auto y = foo(x);
         for (unsigned int j = 0; j < codomain; j++)
         {
             row = first;
-- 
2.43.0


From 13ad2af83611bdaa8c7eb46eb629711032d5d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 22/29] fix: derivatives of complex atanh, atan and acos at
 zero

---
 src/XAD/Complex.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 2957863..07a8c95 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2466,7 +2466,7 @@ XAD_INLINE std::complex<T> atanh_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0)
-            return std::complex<T>(0.0, 0.0);
+            return z;
         if (xad::isnan(z.imag()))
             return std::complex<T>(0.0, std::numeric_limits<nested>::quiet_NaN());
     }
@@ -2515,7 +2515,8 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
     if (z.real() == 0.0)
     {
         if (z.imag() == 0.0 && !xad::signbit(z.imag()))
-            return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5, -0.0);
+            return std::complex<T>(
+                3.141592653589793238462643383279502884197169399 * 0.5 - z.real(), -z.imag());
         if (xad::isnan(z.imag()))
             return std::complex<T>(3.141592653589793238462643383279502884197169399 * 0.5,
                                    -std::numeric_limits<nested>::quiet_NaN());
-- 
2.43.0


From 196b1d09271d6dd50a65f821660fa29a16554e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 23/29] fix: complex tanh and tan of large arguments gave NaN

---
 src/XAD/Complex.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 07a8c95..049d5d2 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2367,6 +2367,17 @@ XAD_INLINE std::complex<T> tanh_impl(const std::complex<T>& z)
         return std::complex<T>(1.0, 0.0);
     if (xad::isnan(z.real()) && z.imag() == 0.0)
         return std::complex<T>(std::numeric_limits<nested>::quiet_NaN(), 0.0);
+    // sinh and cosh overflow for large arguments
+    if (z.real() > 20.0)
+    {
+        std::complex<T> e = exp(-z - z);
+        return (T(1.0) - e) / (T(1.0) + e);
+    }
+    if (z.real() < -20.0)
+    {
+        std::complex<T> e = exp(z + z);
+        return (e - T(1.0)) / (e + T(1.0));
+    }
     return sinh(z) / cosh(z);
 }
 
-- 
2.43.0


From 1b156f68e2e0f55bee5f890fccca404d4dfcb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 24/29] fix: cancellation in complex asinh, asin and acos

For large arguments in one of the half planes, z + sqrt(1 + z*z) cancels and
all digits are lost; use the odd symmetry of asinh instead.
---
 src/XAD/Complex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 049d5d2..db28f33 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2407,6 +2407,9 @@ XAD_INLINE std::complex<T> asinh_impl(const std::complex<T>& z)
     if (xad::isinf(z.imag()) && z.imag() > 0.0 && xad::isfinite(z.real()) && z.real() > 0.0)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                3.141592653589793238462643383279502884197169399 * 0.5);
+    // z and the root cancel in the left half plane
+    if (xad::signbit(z.real()) && !xad::isnan(z.real()))
+        return -asinh(-z);
     return log(z + sqrt(T(1.0) + (z * z)));
 }
 
@@ -2569,10 +2572,7 @@ XAD_INLINE std::complex<T> acos_impl(const std::complex<T>& z)
                                    -std::numeric_limits<nested>::infinity());
     }
 
-    std::complex<T> iz(-z.imag(), z.real());
-    std::complex<T> lnizsqrt = log(iz + sqrt(T(1.0) - (z * z)));
-    std::complex<T> ilnizsqrt(-lnizsqrt.imag(), lnizsqrt.real());
-    return T(3.141592653589793238462643383279502884197169399 * 0.5) + ilnizsqrt;
+    return T(3.141592653589793238462643383279502884197169399 * 0.5) - asin(z);
 }
 
 template <class T>
-- 
2.43.0


From 05bdcbb0ddb6af8985ee6343b35a3d2344693680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 25/29] fix: powers of negative real numbers with complex
 exponents gave NaN

---
 src/XAD/Complex.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index db28f33..1513f58 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -1829,68 +1829,68 @@ XAD_INLINE complex<xad::AReal<T>> pow(const complex<xad::AReal<T>>& x, unsigned
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const xad::AReal<T>& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(const T& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(int x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned short x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::AReal<T>> pow(unsigned long long x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::AReal<T>>>::type pow(
     const T2& x, const complex<xad::AReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::AReal<T>>(x)) * y);
 }
 
 template <class T>
@@ -1982,68 +1982,68 @@ XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FRe
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const xad::FReal<T>& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(const T& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<T>(x)) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(int x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned long long x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T>
 XAD_INLINE complex<xad::FReal<T>> pow(unsigned short x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(T(x)) * y);
+    return xad::detail::exp_impl(log(complex<T>(T(x))) * y);
 }
 
 template <class T, class T2>
 XAD_INLINE typename std::enable_if<xad::ExprTraits<T2>::isExpr, complex<xad::FReal<T>>>::type pow(
     const T2& x, const complex<xad::FReal<T>>& y)
 {
-    return xad::detail::exp_impl(log(x) * y);
+    return xad::detail::exp_impl(log(complex<xad::FReal<T>>(x)) * y);
 }
 
 template <class T>
-- 
2.43.0


From 42435483cb8740e1a872d12bda5aa83bccae0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 26/29] fix: multiplying or dividing a complex number by its
 own real part

The real part was overwritten before the imaginary part used it.
---
 src/XAD/Complex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index 1513f58..e3c8609 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -160,8 +160,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator*=(const T& other)
     {
+        T imag_t = base::imag() * other;  // other may be a part of this number
         base::real() *= other;
-        base::imag() *= other;
+        base::imag(imag_t);
         return derived();
     }
 
@@ -176,8 +177,9 @@ class complex<xad::ADTypeBase<Scalar, T>> : public xad::detail::complex_impl<T>
 
     XAD_INLINE complex<T>& operator/=(const T& other)
     {
+        T imag_t = base::imag() / other;  // other may be a part of this number
         base::real() /= other;
-        base::imag() /= other;
+        base::imag(imag_t);
         return derived();
     }
 
-- 
2.43.0


From c01457d37492f0f01391c2f09480ed2b7cafde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 27/29] fix: complex sqrt on the branch cut in single precision

The real part came out negative from the rounded angle, so that results of
other functions, for example acosh, landed on the wrong side of their cut.
---
 src/XAD/Complex.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/XAD/Complex.hpp b/src/XAD/Complex.hpp
index e3c8609..df864ca 100644
--- a/src/XAD/Complex.hpp
+++ b/src/XAD/Complex.hpp
@@ -2301,7 +2301,18 @@ XAD_INLINE std::complex<T> sqrt_impl(const std::complex<T>& z)
         return std::complex<T>(std::numeric_limits<nested>::infinity(),
                                std::numeric_limits<nested>::infinity());
 
-    return ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
+    if (z.real() == 0.0 && z.imag() == 0.0)
+        return ::xad::detail::polar_impl(sqrt(abs(z)), arg(z) * T(0.5));
+    // keeps the result in the right half plane for arguments on the branch cut
+    if (z.real() < 0.0)
+    {
+        T im = sqrt((abs(z) - z.real()) * T(0.5));
+        if (xad::signbit(z.imag()))
+            im = -im;
+        return std::complex<T>(z.imag() / (im + im), im);
+    }
+    T re = sqrt((abs(z) + z.real()) * T(0.5));
+    return std::complex<T>(re, z.imag() / (re + re));
 }
 
 template <class T>
-- 
2.43.0


From 052d3a139dcee72aad8804c7ac49cbd8ba090f63 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 28/29] fix: a chunk is leaked if the list of chunks cannot
 grow

---
 src/XAD/ChunkContainer.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/XAD/ChunkContainer.hpp b/src/XAD/ChunkContainer.hpp
index cda3c24..090ada6 100644
--- a/src/XAD/ChunkContainer.hpp
+++ b/src/XAD/ChunkContainer.hpp
@@ -164,14 +164,7 @@ class ChunkContainer
         if (nc > chunkList_.size())
         {
             size_type d = nc - chunkList_.size();
-            for (size_type i = 0; i < d; ++i)
-            {
-                char* chunk = reinterpret_cast<char*>(
-                    detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
-                if (chunk == NULL)
-                    throw std::bad_alloc();
-                chunkList_.push_back(chunk);
-            }
+            for (size_type i = 0; i < d; ++i) add_chunk_();
         }
     }
 
@@ -411,18 +404,24 @@ class ChunkContainer
         if (idx_ == chunk_size)
         {
             if (chunk_ == chunkList_.size() - 1)
-            {
-                char* chunk = reinterpret_cast<char*>(
-                    detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
-                if (chunk == NULL)
-                    throw std::bad_alloc();
-                chunkList_.push_back(chunk);
-            }
+                add_chunk_();
             ++chunk_;
             idx_ = 0;
         }
     }
 
+    void add_chunk_()
+    {
+        chunkList_.push_back(NULL);  // first, so that the chunk is not lost if this fails
+        chunkList_.back() = reinterpret_cast<char*>(
+            detail::aligned_alloc(ALIGNMENT, sizeof(value_type) * chunk_size));
+        if (chunkList_.back() == NULL)
+        {
+            chunkList_.pop_back();
+            throw std::bad_alloc();
+        }
+    }
+
     // sets the position past element s - 1, in that element's chunk - the next one may not exist
     void set_size_(size_type s)
     {
-- 
2.43.0


From 73a68156241c033ddf42719a4f51ddf64e041a41 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 29/29] fix: destroying a variable terminates the program if
 there is no memory to keep its slot for reuse

---
 src/Tape.cpp     | 25 +++++++++++++++++++++++--
 src/XAD/Tape.hpp |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/Tape.cpp b/src/Tape.cpp
index 90529d8..7954222 100644
--- a/src/Tape.cpp
+++ b/src/Tape.cpp
@@ -30,6 +30,8 @@
 #include <XAD/UnaryOperators.hpp>
 
 #include <iostream>
+#include <iterator>
+#include <new>
 #include <numeric>
 #include <sstream>
 
@@ -172,6 +174,22 @@ typename Tape<T>::slot_type Tape<T>::registerVariableReuseSlots()
     return ret;
 }
 
+// This is called when variables are destroyed, so it must not throw:
+// without memory for the new range, the slot is not reused.
+template <class T>
+bool Tape<T>::insertRange(typename range_list::iterator pos, slot_type slot) noexcept
+{
+    try
+    {
+        reusable_ranges_.emplace(pos, slot, slot + 1);
+        return true;
+    }
+    catch (const std::bad_alloc&)
+    {
+        return false;
+    }
+}
+
 template <class T>
 void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
 {
@@ -226,7 +244,8 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
             if (reusable_ranges_.empty() || slot > reusable_ranges_.back().second())
             {
                 // insert a new range at the end
-                reusable_ranges_.emplace_back(slot, slot + 1);
+                if (!insertRange(reusable_ranges_.end(), slot))
+                    return;
                 currentRec_->latestRange_ = reusable_ranges_.end();
                 --currentRec_->latestRange_;
                 if (currentRec_->startRange_ == reusable_ranges_.end())
@@ -246,7 +265,9 @@ void Tape<T>::unregisterVariableReuseSlots(slot_type slot)
                 else
                 {
                     // insert a new range
-                    currentRec_->latestRange_ = reusable_ranges_.emplace(it, slot, slot + 1);
+                    if (!insertRange(it, slot))
+                        return;
+                    currentRec_->latestRange_ = std::prev(it);
                     if (it == currentRec_->startRange_)
                         currentRec_->startRange_ = currentRec_->latestRange_;
                 }
diff --git a/src/XAD/Tape.hpp b/src/XAD/Tape.hpp
index 611c68e..fd83182 100644
--- a/src/XAD/Tape.hpp
+++ b/src/XAD/Tape.hpp
@@ -270,6 +270,7 @@ class Tape
     void unregisterVariableReuseSlots(slot_type slot);
     typedef ReusableRange<slot_type> slot_range_type;
     typedef std::list<slot_range_type> range_list;
+    bool insertRange(typename range_list::iterator pos, slot_type slot) noexcept;
     range_list reusable_ranges_;
 #endif
 
-- 
2.43.0

