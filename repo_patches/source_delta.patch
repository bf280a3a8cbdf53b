From 28b13ee116312dcf49e80b86cda1c8595916969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 1/9] fix: pool blocks are laid out with the padded element
 size

Preparing a block zero-fills its padded size, and ObjectPool accepts types up to
it, but blocks were placed the unpadded size apart: they overlapped, the last
one overran the arena, and most were misaligned for element sizes that are not
a multiple of the pointer size.
---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From a43cf06064f22fe0766e1e4f58b27e88def01252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 2/9] fix: clamp the maximum available count of a Semaphore
 instead of truncating it

A maximum above 2^32-1 was silently reduced modulo 2^32, e.g. 2^32+1 became 1.
---
 src/Semaphore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..8cf8178 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -417,7 +417,8 @@ private:
     static AvailableCountType doctorMaxAvailableCount( size_t theMaxAvailableCount,
         AvailableCountType clampedInitialCount )
     {
-        if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
+        if ( theMaxAvailableCount == 0 || theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
 
         // If here, neither of the above were true, return the maximum available count as is.
-- 
2.43.0


From 1616ab227de2b2e174cae65f4f22521c4af58cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 3/9] fix: a Semaphore functor that throws no longer swallows a
 wakeup

A woken taker (giver) whose functor throws leaves the unit (room) it was woken
for, but the only wakeup was consumed: another waiting taker (giver) stayed
blocked forever although it could proceed.
---
 src/Semaphore.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 8cf8178..0bbf5e8 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,18 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~AvailableCountManager() noexcept { if ( !released ) { ++rImple.availableCount; rImple._giveNotify(); } }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
-        // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        // Guard the available count and call user provided operation. If it throws, the wakeup that may have
+        // brought us here is passed on to another waiting taker along with the restored count.
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +211,16 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
-        operation();
+        try
+        {
+            operation();
+        }
+        catch ( ... )
+        {
+            // The room we leave unused may be what another "giver" waits for. We may have consumed its wakeup.
+            _takeNotify();
+            throw;
+        }
         _give();
     }
 
@@ -376,7 +386,16 @@ private:
         if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };
 
         ++availableCount;
+        _giveNotify();
+    }
 
+    /**
+    * @brief The Give Notify Internals
+    *
+    * This operation will notify at most, one waiting take thread.
+    */
+    inline void _giveNotify()
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From 197734b4c56d85cc924e0e36b6fa31d28f90ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 4/9] fix: RingBufferGuarded::flush hands over what is stored,
 even if not completely primed

After an abort before or during priming, and on a second invocation, flush relied
on a count of elements that were not there and threw RingBufferUnderflow.
---
 src/RingBufferGuarded.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..65103ff 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -267,8 +267,16 @@ namespace ReiserRT
                     throw RingBufferStateError{ "RingBufferGuarded::flush invoked while not in the Terminal state!" };
                 }
 
+                // The available count is only an upper bound. It also counts elements that were never primed,
+                // due to an abort, and those that a former flush invocation already handed over.
                 const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                for ( size_t i = 0; count != i; ++i )
+                {
+                    T val;
+                    try { val = Base::get(); }
+                    catch ( const RingBufferUnderflow & ) { break; }
+                    operation( val );
+                }
             }
 
             /**
-- 
2.43.0


From 49df0287a077b561e6f74d687abbc37e5bee6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 5/9] fix: account for returned pool and queue memory before it
 can be handed out again

---
 src/MemoryPoolBase.cpp   | 21 +++++++++++----------
 src/MessageQueueBase.cpp |  9 +++++----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..7e530f5 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,16 +222,8 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
-        // Manage Watermark Logic
+        // Manage Watermark Logic. This must precede making the block available again. Otherwise another thread
+        // could obtain the block and account for that first, driving the counts below what they really are.
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
         runningStats.state = runningState.load( std::memory_order_seq_cst );
@@ -244,6 +236,15 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..71d8d03 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,10 +421,8 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
-
-    // Manage running count.
+    // Manage running count. This must precede making the memory available again. Otherwise another thread
+    // could obtain it and account for that first, driving the counts beyond what they really are.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
     InternalRunningStateStats runningStatsNew;
@@ -438,6 +436,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory back into the raw ring buffer.
+    rawRingBuffer.put( pRaw );
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 9ec83291c1661cbe6081913853e5ec30e842e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 6/9] fix: an abort while message memory is being returned no
 longer terminates the process

---
 src/MessageQueueBase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 71d8d03..b7133c2 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -199,7 +199,7 @@ private:
     *
     * @param pRaw A pointer to raw memory that is to be made available for cooking.
     *
-    * @throw Throws std::runtime_error if the "raw" ring buffer becomes aborted.
+    * @note Does not throw if the "raw" ring buffer becomes aborted as this is invoked from within destructors.
     */
     void rawPutAndNotify( void * pRaw );
 
@@ -437,8 +437,10 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
-    // Put formerly cooked memory back into the raw ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory back into the raw ring buffer. This is invoked from within destructors.
+    // Being aborted beforehand, or while we are at it, is of no consequence here and must not throw.
+    try { rawRingBuffer.put( pRaw ); }
+    catch ( ... ) { if ( !aborted ) throw; }
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 3c06b0f4dacfd37600f34937647d62bfdd7b3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 7/9] fix: a message that cannot be queued because of an abort
 is destroyed

---
 src/MessageQueueBase.cpp  | 20 +++++++++++++++++++-
 src/RingBufferGuarded.hpp | 12 ++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index b7133c2..776fe45 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -173,7 +173,25 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        // If it cannot be delivered, due to an abort, nobody else will ever see the message. We must destroy it.
+        bool delivered = false;
+        try { delivered = cookedRingBuffer.put( pCooked ); }
+        catch ( ... ) { destroyAndReturn( pCooked ); throw; }
+        if ( !delivered ) destroyAndReturn( pCooked );
+    }
+
+    /**
+    * @brief The destroyAndReturn Operation
+    *
+    * This operation destroys a message and restores the memory it occupied back into our implementation.
+    *
+    * @param pCooked A pointer to an abstract MessageBase object.
+    */
+    inline void destroyAndReturn( MessageBase * pCooked )
+    {
+        void * pRaw = pCooked;
+        pCooked->~MessageBase();
+        rawPutAndNotify( pRaw );
     }
 
     /**
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 65103ff..d4587ab 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -167,14 +167,17 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put, or false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                const State currentState = state;
+                if ( currentState == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
-                if ( state != State::Ready )
+                if ( currentState != State::Ready )
                 {
                     throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                 }
@@ -184,6 +187,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -572,7 +576,7 @@ namespace ReiserRT
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From c6e3ad84a8c1fcd66c10d10e5cfd5aaa418b3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 8/9] fix: return the start of the block for objects whose
 pooled base is not at their start

---
 src/MessageQueueBase.cpp  |  3 ++-
 src/MessageQueueBase.hpp  | 11 ++++++++++-
 src/ObjectPoolDeleter.hpp | 30 +++++++++++++++++++++++++++++-
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 776fe45..dae22e1 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -189,7 +189,8 @@ private:
     */
     inline void destroyAndReturn( MessageBase * pCooked )
     {
-        void * pRaw = pCooked;
+        // The MessageBase subobject need not be at the start of the memory that the message was constructed upon.
+        void * pRaw = dynamic_cast< void * >( pCooked );
         pCooked->~MessageBase();
         rawPutAndNotify( pRaw );
     }
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..c2664b6 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -425,7 +425,16 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( !pMQB || !pMsg ) return;
+
+                    // The MessageBase subobject need not be at the start of the memory that the message was
+                    // constructed upon. It is the start that must be returned.
+                    void * pRaw = dynamic_cast< void * >( pMsg );
+                    pMsg->~MessageBase();
+                    pMQB->rawPutAndNotify( pRaw );
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..e93eda7 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,33 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // The T subobject need not be at the start of the memory that a derived object was constructed upon.
+                // It is the start that must be returned.
+                void * pRaw = getStart( pT, std::is_polymorphic< T >{} );
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            /**
+            * @brief Get the Start of a Polymorphic Object
+            *
+            * @param pT A pointer to an object or the T subobject of a derived object.
+            *
+            * @return Returns a pointer to the start of the most derived object.
+            */
+            static void * getStart( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+
+            /**
+            * @brief Get the Start of a Non-Polymorphic Object
+            *
+            * @param pT A pointer to an object. It cannot be that of a derived object.
+            *
+            * @return Returns the pointer to the object.
+            */
+            static void * getStart( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From b7ebd2c047c7d2cf2708d557b737e85c6547bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 9/9] fix: move assignment to an AutoDispatchLock releases the
 lock it holds

---
 src/MessageQueueBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index c2664b6..13f9bc4 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,8 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        // Release what we hold, if anything. Otherwise it would never be.
+                        unlock();
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0

