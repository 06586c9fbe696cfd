From de9a4758f3b7d69468e787171a2d8f573e93005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 01/13] fix: Semaphore no longer loses a wake-up when a take or
 give functor throws

---
 src/Semaphore.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..c08b762 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,18 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            // What we put back, another "taker" may already be waiting for. We may have consumed its notification.
+            ~AvailableCountManager() noexcept { if ( !released ) { ++rImple.availableCount; rImple._giveNotify(); } }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
         // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +211,16 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
-        operation();
+        try
+        {
+            operation();
+        }
+        catch ( ... )
+        {
+            // We gave nothing. Should we have consumed a notification, another "giver" must get it.
+            _takeNotify();
+            throw;
+        }
         _give();
     }
 
@@ -377,6 +387,16 @@ private:
 
         ++availableCount;
 
+        _giveNotify();
+    }
+
+    /**
+    * @brief The Give Notify Internals
+    *
+    * This operation will notify at most, one waiting take thread.
+    */
+    inline void _giveNotify()
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From 530324f764e69217217538f71630ea48a14af4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 02/13] fix: Semaphore clamps a maximum count that exceeds 32
 bits instead of truncating it

---
 src/Semaphore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index c08b762..4e6b3a1 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -438,6 +438,8 @@ private:
         AvailableCountType clampedInitialCount )
     {
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
 
         // If here, neither of the above were true, return the maximum available count as is.
-- 
2.43.0


From 0c84056f2a8f18a6b9f10b3fd2dc5bd07e468327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 03/13] fix: MemoryPoolBase lays its arena out by the padded
 element size it zeroes and accepts

---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From cc997605395ed72e43ea48b3cb5ad7ad2301cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 04/13] fix: AutoDispatchLock move assignment releases the lock
 it already holds

---
 src/MessageQueueBase.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..57fbf51 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,7 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        unlock();
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From 7c9ede0a92e92871ba57c11049cbffb3fb8ef93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 05/13] fix: MessageQueue abort during the return of a block no
 longer terminates the process

---
 src/MessageQueueBase.cpp  | 9 ++++++++-
 src/RingBufferGuarded.hpp | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..3c81f00 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -422,7 +422,14 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
     // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    try
+    {
+        rawRingBuffer.put( pRaw );
+    }
+    catch ( const SemaphoreAborted & )
+    {
+        // We are invoked by destructors, during an abort. There is no one left to reuse the memory.
+    }
 
     // Manage running count.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..6663746 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -171,10 +171,12 @@ namespace ReiserRT
             inline void put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                // Capture the state once. It may become "Terminal" at any time.
+                const State currentState = state;
+                if ( currentState == State::Terminal ) return;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
-                if ( state != State::Ready )
+                if ( currentState != State::Ready )
                 {
                     throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                 }
-- 
2.43.0


From 8ce1b566763f774bffe3e720234543c0f61728e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 06/13] fix: pool and queue get back the block they handed out
 when its object has several bases

---
 src/MessageQueueBase.hpp  | 11 ++++++++++-
 src/ObjectPoolDeleter.hpp | 14 +++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 57fbf51..9288219 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -426,7 +426,16 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        // A message may not begin with its MessageBase. We must return the memory handed out.
+                        void * pRaw = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pRaw );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..cfee8b0 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,17 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // A derived type may not begin with its T. We must return what the pool handed out.
+                void * pRaw = getRaw( pT, std::is_polymorphic< T >{} );
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            static void * getRaw( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+            static void * getRaw( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From ddf10f3bac7b760701f727d3442d162cd0838261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 07/13] fix: running counts account for a returned block before
 another thread can get it

---
 src/MemoryPoolBase.cpp   | 19 ++++++++++---------
 src/MessageQueueBase.cpp | 21 +++++++++++----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..2437b5b 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,15 +222,6 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
         // Manage Watermark Logic
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
@@ -244,6 +235,16 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Only now that the block is accounted for, may another thread get it.
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 3c81f00..3b39884 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,16 +421,6 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    try
-    {
-        rawRingBuffer.put( pRaw );
-    }
-    catch ( const SemaphoreAborted & )
-    {
-        // We are invoked by destructors, during an abort. There is no one left to reuse the memory.
-    }
-
     // Manage running count.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
@@ -445,6 +435,17 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Only now that the block is accounted for, may another thread get it.
+    // Put formerly cooked memory into the cooked ring buffer.
+    try
+    {
+        rawRingBuffer.put( pRaw );
+    }
+    catch ( const SemaphoreAborted & )
+    {
+        // We are invoked by destructors, during an abort. There is no one left to reuse the memory.
+    }
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 45597f3bdbbdbfac429af2e302981a8ef1b88298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 08/13] fix: RingBufferGuarded never admits more elements than
 its ring buffer holds

---
 src/RingBufferGuarded.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 6663746..4c78802 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -81,7 +81,8 @@ namespace ReiserRT
             */
             explicit RingBufferGuardedBase( size_t theRequestedNumElements, bool willPrime = false )
                 : Base{ theRequestedNumElements }
-                , semaphore{ willPrime ? theRequestedNumElements : 0, theRequestedNumElements }
+                , semaphore{ willPrime ? limitToSize( theRequestedNumElements ) : 0,
+                        theRequestedNumElements ? limitToSize( theRequestedNumElements ) : Base::getSize() }
                 , state{ willPrime ? State::NeedsPriming : State::Ready }
             {
             }
@@ -295,6 +296,14 @@ namespace ReiserRT
             using Base::getMask;
 
         private:
+            /**
+            * @brief The Limit To Size Operation
+            *
+            * @param n A requested number of elements.
+            * @return Returns the requested number of elements or what the ring buffer can hold, whichever is less.
+            */
+            size_t limitToSize( size_t n ) const noexcept { return n < Base::getSize() ? n : Base::getSize(); }
+
             /**
             * @brief The Counted Semaphore Object.
             *
-- 
2.43.0


From 64d6966405a402fa44f1870385be9a9317e4470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 09/13] fix: MessageQueue construction failure no longer leaks
 the arena

---
 src/MessageQueueBase.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 3b39884..438958b 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -15,6 +15,7 @@
 #include "Mutex.hpp"
 
 #include <cstring>
+#include <memory>
 #include <thread>
 #include <mutex>
 
@@ -267,9 +268,10 @@ private:
     * @brief Our Memory Arena
     *
     * This attribute records the pointer to our memory arena that was allocated during construction so that
-    * it may be properly returned to the standard heap during ObjectQueue destruction.
+    * it may be properly returned to the standard heap during ObjectQueue destruction, or should the remainder of
+    * our construction fail.
     */
-    alignas( void * ) unsigned char * arena;
+    const std::unique_ptr< unsigned char[] > arena;
 
     /**
     * @brief The Name of the Last Message Dispatched
@@ -362,7 +364,7 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
 {
     // Prime the raw ring buffer with void pointers into our arena space. We do this with a lambda function.
     auto funk = [ this ]( size_t i )
-            { return reinterpret_cast< void * >( arena + i * elementSize ); };
+            { return reinterpret_cast< void * >( arena.get() + i * elementSize ); };
     rawRingBuffer.prime( funk );
 }
 
@@ -371,9 +373,6 @@ MessageQueueBase::Imple::~Imple()
     // Flush anything left in the cooked ring buffer.
     auto funk = []( void * pV ) { auto * pM = reinterpret_cast< MessageBase * >( pV ); pM->~MessageBase(); };
     cookedRingBuffer.flush( funk );
-
-    // Return our arena memory to the standard heap.
-    delete[] arena;
 }
 
 MessageQueueBase::RunningStateStats MessageQueueBase::Imple::getRunningStateStatistics() noexcept
-- 
2.43.0


From a9dc5a88212f0c43d37e8fec58890a9866f1c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 10/13] fix: a message whose enqueueing meets an abort is
 destroyed and its sender told

---
 src/MessageQueueBase.cpp  | 16 +++++++++++++---
 src/RingBufferGuarded.hpp | 11 ++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 438958b..ea916ca 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -169,12 +169,22 @@ private:
     *
     * @param pCooked A pointer to an abstract MessageBase object.
     *
-    * @throw Throws std::runtime_error if the "cooked" ring buffer becomes aborted.
+    * @throw Throws std::runtime_error if the "cooked" ring buffer becomes aborted. The message is destroyed
+    * if so, as it will neither be dispatched nor flushed.
     */
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
-        // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        try
+        {
+            // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
+            if ( !cookedRingBuffer.put( pCooked ) )
+                throw SemaphoreAborted{ "MessageQueueBase::Imple::cookedPutAndNotify: Aborted!" };
+        }
+        catch ( ... )
+        {
+            pCooked->~MessageBase();
+            throw;
+        }
     }
 
     /**
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 4c78802..5085661 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -168,13 +168,15 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put, and false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
                 // Capture the state once. It may become "Terminal" at any time.
                 const State currentState = state;
-                if ( currentState == State::Terminal ) return;
+                if ( currentState == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( currentState != State::Ready )
@@ -187,6 +189,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -574,8 +577,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the pointer was put, and false if it was not because we are in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From eebe531ba5c01da690d2ad61ed64383096accc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 11/13] fix: RingBufferGuarded flush ends once the ring buffer
 is empty

---
 src/RingBufferGuarded.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 5085661..8c7c84b 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -274,7 +274,13 @@ namespace ReiserRT
                 }
 
                 const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                for ( size_t i = 0; count != i; ++i )
+                {
+                    T val;
+                    try { val = Base::get(); }
+                    catch ( const RingBufferUnderflow & ) { return; } // Never fully primed or already flushed.
+                    operation( val );
+                }
             }
 
             /**
-- 
2.43.0


From d5f5fedb7d3cca4d90110a72290b2dce1ccd1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 12/13] fix: pool pointers may be of constant type as
 documented

---
 src/BlockPoolDeleter.hpp  | 13 ++++++++++++-
 src/ObjectPoolDeleter.hpp | 17 +++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/BlockPoolDeleter.hpp b/src/BlockPoolDeleter.hpp
index 010685c..415b098 100644
--- a/src/BlockPoolDeleter.hpp
+++ b/src/BlockPoolDeleter.hpp
@@ -60,6 +60,17 @@ namespace ReiserRT
             {
             }
 
+            /**
+            * @brief Converting Constructor for BlockPoolDeleter
+            *
+            * Provides for conversion to the deleter of the constant type.
+            *
+            * @param another A reference to an BlockPoolDeleter of the mutable type.
+            */
+            template< typename U, typename = typename std::enable_if< std::is_same< const U, T >::value
+                    && !std::is_same< U, T >::value >::type >
+            BlockPoolDeleter( const BlockPoolDeleter< U[] > & another ) noexcept : MemoryPoolDeleterBase{ another } {}
+
             /**
             * @brief Default Constructor for BlockPoolDeleter
             *
@@ -134,7 +145,7 @@ namespace ReiserRT
                         _pT->~T();
                 }
 
-                returnRawBlock( pT );
+                returnRawBlock( const_cast< typename std::remove_const< T >::type * >( pT ) );
             }
 
             /**
diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index cfee8b0..1669eca 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -36,6 +36,17 @@ namespace ReiserRT
             */
             explicit ObjectPoolDeleter( MemoryPoolBase * thePool ) noexcept : MemoryPoolDeleterBase{ thePool } {}
 
+            /**
+            * @brief Converting Constructor for ObjectPoolDeleter
+            *
+            * Provides for conversion to the deleter of the constant type.
+            *
+            * @param another A reference to an ObjectPoolDeleter of the mutable type.
+            */
+            template< typename U, typename = typename std::enable_if< std::is_same< const U, T >::value
+                    && !std::is_same< U, T >::value >::type >
+            ObjectPoolDeleter( const ObjectPoolDeleter< U > & another ) noexcept : MemoryPoolDeleterBase{ another } {}
+
             /**
             * @brief Default Constructor for ObjectPoolDeleter
             *
@@ -105,8 +116,10 @@ namespace ReiserRT
             }
 
         private:
-            static void * getRaw( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
-            static void * getRaw( T * pT, std::false_type ) noexcept { return pT; }
+            using MutableType = typename std::remove_const< T >::type;
+
+            static void * getRaw( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( const_cast< MutableType * >( pT ) ); }
+            static void * getRaw( T * pT, std::false_type ) noexcept { return const_cast< MutableType * >( pT ); }
         };
     }
 }
-- 
2.43.0


From 09fa3c4114cef189e98570390a053b82c420c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 13/13] fix: MessageQueueBase may not be copied or moved

---
 src/MessageQueueBase.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 9288219..03f2536 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -489,6 +489,42 @@ namespace ReiserRT
             explicit MessageQueueBase( std::size_t requestedNumElements, std::size_t requestedMaxMessageSize,
                                        bool enableDispatchLocking );
 
+            /**
+            * @brief Copy Constructor for MessageQueueBase
+            *
+            * Copying MessageQueueBase is disallowed. Hence, this operation has been deleted.
+            *
+            * @param another Another instance of a MessageQueueBase.
+            */
+            MessageQueueBase( const MessageQueueBase & another ) = delete;
+
+            /**
+            * @brief Copy Assignment Operation for MessageQueueBase
+            *
+            * Copying MessageQueueBase is disallowed. Hence, this operation has been deleted.
+            *
+            * @param another Another instance of a MessageQueueBase.
+            */
+            MessageQueueBase & operator =( const MessageQueueBase & another ) = delete;
+
+            /**
+            * @brief Move Constructor for MessageQueueBase
+            *
+            * Moving MessageQueueBase is disallowed. Hence, this operation has been deleted.
+            *
+            * @param another An rvalue reference to another instance of a MessageQueueBase.
+            */
+            MessageQueueBase( MessageQueueBase && another ) = delete;
+
+            /**
+            * @brief Move Assignment Operation for MessageQueueBase
+            *
+            * Moving MessageQueueBase is disallowed. Hence, this operation has been deleted.
+            *
+            * @param another An rvalue reference to another instance of a MessageQueueBase.
+            */
+            MessageQueueBase & operator =( MessageQueueBase && another ) = delete;
+
             /**
              * @brief Destructor for MessageQueueBase
              *
-- 
2.43.0

