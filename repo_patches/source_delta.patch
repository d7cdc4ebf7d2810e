From 2873e494f5ff2c861fdb4a08e0f0934d2eb3933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 01/48] fix: size the signal queue of a stream by its signals,
 not by its elements

length_signal is what copyFrom moves when a stream is resized; computed from
sizeof( T ) it dropped signals of small elements and read and wrote past the
end of the signal queue for large ones.
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 696c0e27053655c38475130b9f854f735ddb0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 02/48] fix: deallocate() destroys the reserved element, not
 the oldest unread one

---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..40bd57e 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -493,8 +493,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From da27e0da93b22d4380ba6f46f102a332a047b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 03/48] fix: peek_range signals are indexed from the start of
 the signal queue

autorelease adds the read position itself; handing it a pointer that is already
advanced by the read position reported the signals of other elements and read
past the end of the queue.
---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 40bd57e..50d5a6c 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -465,7 +465,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -905,7 +905,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1390,7 +1390,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From a17b2dae78db5cc0ca291c1634367f90f5999a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 04/48] fix: send_range attaches the signal to the last element
 of the range

It was stored with the first one (the write pointer is only advanced by
send_range itself), so that an end marker overtook the data it follows; insert
already does it this way round.
---
 raftinc/ringbufferheap.tcc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 50d5a6c..bfc422c 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -92,8 +92,14 @@ public:
         return;
       }
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      /** the signal belongs to the last element of the range **/
+      auto * const data_ptr( (this)->datamanager.get() );
+      const size_t n_range( (this)->producer_data.n_allocated );
+      if( n_range != 0 )
+      {
+         const size_t last_index( ( Pointer::val( data_ptr->write_pt ) + n_range - 1 ) % data_ptr->max_cap );
+         data_ptr->signal[ last_index ] = signal;
+      }
       /* only need to inc one more **/
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
@@ -537,8 +543,14 @@ public:
         }
         auto * const buff_ptr( (this)->datamanager.get() );
         /** should be the end of the write, regardless of which allocate called **/
-        const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
-        buff_ptr->signal[ write_index ] = signal;
+        /** the signal belongs to the last element of the range **/
+        auto * const data_ptr( (this)->datamanager.get() );
+        const size_t n_range( (this)->producer_data.n_allocated );
+        if( n_range != 0 )
+        {
+           const size_t last_index( ( Pointer::val( data_ptr->write_pt ) + n_range - 1 ) % data_ptr->max_cap );
+           data_ptr->signal[ last_index ] = signal;
+        }
         /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
         Pointer::incBy( buff_ptr->write_pt,
@@ -980,8 +992,14 @@ public:
    {
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      /** the signal belongs to the last element of the range **/
+      auto * const data_ptr( (this)->datamanager.get() );
+      const size_t n_range( (this)->producer_data.n_allocated );
+      if( n_range != 0 )
+      {
+         const size_t last_index( ( Pointer::val( data_ptr->write_pt ) + n_range - 1 ) % data_ptr->max_cap );
+         data_ptr->signal[ last_index ] = signal;
+      }
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
-- 
2.43.0


From cc11063fe7c1617b06230569ec689cf0597ef5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 05/48] fix: deallocate() also ends a reservation made with
 allocate_range

The range flag stayed set, which kept the stream from ever being resized again.
---
 raftinc/ringbufferheap.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index bfc422c..60ed1c0 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -55,6 +55,8 @@ public:
        */
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      /** might have been reserved with allocate_range **/
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
    /**
@@ -505,6 +507,8 @@ public:
       ptr->~T();
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      /** might have been reserved with allocate_range **/
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
     /**
@@ -958,6 +962,8 @@ public:
       delete( ptr );
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      /** might have been reserved with allocate_range **/
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
    /**
-- 
2.43.0


From 644b58cdc4332b3582966150f7702032786e170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 06/48] fix: popping an externally allocated element frees its
 memory

Only the destructor was run, every element popped was leaked.
---
 raftinc/ringbufferheap.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 60ed1c0..147da42 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1300,9 +1300,10 @@ protected:
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       /**
-       * fix for bug #76 - jcb 18Nov2018
+       * fix for bug #76 - jcb 18Nov2018, the object was allocated with
+       * new by push or allocate, so give back its memory as well.
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From 32a1c404975ffac07b8d912cfc6a06cfdcaf689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 07/48] fix: blocked statistics belong to the stream, not to a
 buffer freed by a resize

---
 raftinc/bufferdata.tcc              | 18 ------------------
 raftinc/database.tcc                |  8 --------
 raftinc/fifoabstract.tcc            | 14 ++++++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 4 files changed, 13 insertions(+), 33 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..b6a3032 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -77,8 +77,6 @@ template < class T > struct Data< T,
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -127,8 +125,6 @@ template < class T > struct Data< T,
       /** TODO, see if there are optimizations to be made with sizing and alignment **/
       new ( &(this)->read_pt ) Pointer( max_cap );
       new ( &(this)->write_pt ) Pointer( max_cap ); 
-      new ( &(this)->read_stats ) Blocked();
-      new ( &(this)->write_stats ) Blocked();
    }
   
    /**
@@ -164,10 +160,6 @@ template < class T > struct Data< T,
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        /** stats objects are still valid, copy the ptrs over **/
-        
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
@@ -222,8 +214,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt ) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -270,8 +260,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
    }
    
    virtual void copyFrom( ourtype_t *other )
@@ -297,10 +285,6 @@ template < class T >
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        //copy over block stats objects
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
-        
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
@@ -381,7 +365,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
                               signal_key.c_str() );
 
             new ( &(this)->write_pt ) Pointer( max_cap ); 
-            new ( &(this)->write_stats ) Blocked();
             
 
             (this)->cookie.producer = 0x1337;
@@ -428,7 +411,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
             assert( (this)->signal != nullptr );
             
             new ( &(this)->read_pt ) Pointer( max_cap );
-            new ( &(this)->read_stats ) Blocked();
             
 
             (this)->cookie.consumer = 0x1337;
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 5bbbdfe..36e8fc3 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -23,7 +23,6 @@
 #include "pointer.hpp"
 #include "signal.hpp"
 #include <cstddef>
-#include "blocked.hpp"
 #include "threadaccess.hpp"
 
 namespace raft
@@ -84,13 +83,6 @@ template < class T > struct DataBase
     /** variable set by scheduler, used for shutdown **/
     bool                    is_valid        = true;
     
-    /**
-     * these keep reference over how many read/writes are
-     * blocked. used for dynamic adaptation.
-     */
-    Blocked                 read_stats; 
-    Blocked                 write_stats;
-    
     /** need to force resize, this has the count requested **/
     std::size_t             force_resize    = 0;
 
diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..9a0d414 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,8 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        producer_data.write_stats = &write_stats;
+        consumer_data.read_stats  = &read_stats;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -82,5 +80,13 @@ protected:
      * lock free buffer resizing and re-alignment.
      */
     DataManager< T, type >       datamanager;
+
+    /**
+     * these keep reference over how many read/writes are
+     * blocked. used for dynamic adaptation, they belong to 
+     * the FIFO since the buffers come and go on a resize.
+     */
+    Blocked                      read_stats;
+    Blocked                      write_stats;
 };
 #endif /* END RAFTFIFOABSTRACT_TCC */
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7154f35 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->read_stats.all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->write_stats.all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( (this)->write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From af889c675b102d5f3f3c51b93ffd7e1794943f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 08/48] fix: access flags that exclude a resize live outside
 the buffer being replaced

---
 raftinc/bufferdata.tcc  |  4 ----
 raftinc/database.tcc    | 10 +---------
 raftinc/datamanager.tcc | 15 +++++++--------
 3 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index b6a3032..640d30f 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -163,8 +163,6 @@ template < class T > struct Data< T,
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
    }
 
 
@@ -285,8 +283,6 @@ template < class T >
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
    }
 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 36e8fc3..54ccb3b 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -23,7 +23,6 @@
 #include "pointer.hpp"
 #include "signal.hpp"
 #include <cstddef>
-#include "threadaccess.hpp"
 
 namespace raft
 {
@@ -66,15 +65,8 @@ template < class T > struct DataBase
     const std::size_t       dynamic_alloc_size;
 
 
-    /**
-     * read/write pointer. the thread_access is in 
-     * between as it's well accessed by both just
-     * as frequently as the pointers themselves, 
-     * so we get decent caching behavior out of 
-     * doing it this way. 
-     */
+    /** read/write pointer **/
     Pointer                 read_pt;
-    ThreadAccess            thread_access[ 2 ];
     Pointer                 write_pt;
     
     T                       *store          = nullptr;
diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..3e19428 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -29,6 +29,7 @@
 #include "ringbuffertypes.hpp"
 #include "bufferdata.tcc"
 #include "defs.hpp"
+#include "threadaccess.hpp"
 
 
 template < class T, 
@@ -51,12 +52,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -229,8 +224,12 @@ private:
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, should be two of them, one for the
+    * producer and the other for the consumer. They can't be part of
+    * the buffer, these say if the buffer itself can be replaced.
+    */
+   ThreadAccess thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
-- 
2.43.0


From 73b1bc16b980976446bf3b8c15d0f0f528430591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 09/48] fix: closing and querying a stream exclude a concurrent
 resize

invalidate, is_invalid, capacity and signal_peek used the buffer while
a resize could free it (and lost the close), space_avail could mix the
old capacity with the new size.
---
 raftinc/ringbufferheap_abstract.tcc | 63 ++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7154f35..1c853a1 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,11 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      (this)->with_buffer( []( auto * const ptr )
+      { 
+         ptr->is_valid = false; 
+         return( true ); 
+      } );
       return;
    }
    
@@ -127,8 +130,10 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      return( (this)->with_buffer( []( auto * const ptr )
+      { 
+         return( ! ptr->is_valid ); 
+      } ) );
    }
 
 
@@ -140,7 +145,9 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      /** size first, capacity can only go up in between **/
+      const auto used( size() );
+      return( capacity() - used );
    }
   
    /**
@@ -150,7 +157,10 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      return( (this)->with_buffer( []( auto * const ptr )
+      { 
+         return( ptr->max_cap ); 
+      } ) );
    }
 
    
@@ -210,6 +220,29 @@ TOP:
    
 
 protected:
+   /**
+    * with_buffer - call the function given with the current
+    * buffer, excluding a concurrent resize (which frees it) 
+    * for as long as the function runs.
+    * @param func - function taking the buffer pointer
+    * @return whatever func returns
+    */
+   template < class F > auto with_buffer( F &&func )
+   {
+      for( ;; )
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            const auto ret_val( func( (this)->datamanager.get() ) );
+            (this)->datamanager.exitBuffer( dm::size );
+            return( ret_val );
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
+   }
+
    /**
     * setPtrMap
     */
@@ -248,19 +281,11 @@ protected:
     */
    virtual raft::signal signal_peek()
    {
-      /** 
-       * NOTE: normally I'd say we need exclusion here too,
-       * however, since this is a copy and we want this to
-       * be quick since it'll be used quite often in tight
-       * loops I think we'll be okay with getting the current
-       * pointer to the head of the queue and returning the
-       * value.  Logically copying the queue shouldn't effect
-       * this value since the elements all remain in their 
-       * location relative to the start of the queue.
-       */
-      auto * const buff_ptr( (this)->datamanager.get() );
-      const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      return( (this)->with_buffer( []( auto * const buff_ptr ) -> raft::signal
+      {
+         const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
+         return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      } ) );
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
-- 
2.43.0


From c206a60b1ba84eb75c65bd908ad1cb8cff2a215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 10/48] fix: a consumer waiting in pop does not keep the stream
 from being resized

---
 raftinc/ringbufferheap.tcc | 44 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 147da42..654aeba 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -350,15 +350,13 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** not in the buffer while waiting, a resize must be able to proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -791,15 +789,13 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** not in the buffer while waiting, a resize must be able to proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -1273,17 +1269,15 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** not in the buffer while waiting, a resize must be able to proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
-            raft::yield();
+            rd_stats  = 1;
          }
+         raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-- 
2.43.0


From 214d1bc6e3ee7175c5ce2fded1e6eb61f3b62e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 11/48] fix: an empty stream can be resized wherever its read
 position is

A reservation larger than the capacity of an empty stream waited for a
resize that never took place.
---
 raftinc/datamanager.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 3e19428..570ad1a 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -118,6 +118,12 @@ public:
           */
          const auto rpt( Pointer::val( buff_ptr->read_pt  ) );
          const auto wpt( Pointer::val( buff_ptr->write_pt ) );
+         if( rpt == wpt )
+         {
+            /** nothing to copy if empty, full would have to be re-ordered **/
+            return( Pointer::wrapIndicator( buff_ptr->read_pt  ) ==
+                    Pointer::wrapIndicator( buff_ptr->write_pt ) );
+         }
          return( rpt < wpt );
       } );
       
-- 
2.43.0


From 630d21da951bd92eb7c04ca3cafa729972ff7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 12/48] fix: a resize moves class type elements instead of
 copying their bytes

---
 raftinc/bufferdata.tcc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 640d30f..8ac5744 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -152,9 +152,22 @@ template < class T > struct Data< T,
         (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        if constexpr ( std::is_trivially_copyable< T >::value )
+        {
+            std::memcpy( (void*)(this)->store /* dst */,
+                         (void*)other->store  /* src */,
+                         other->length_store );
+        }
+        else
+        {
+            /** elements might refer to themselves, only [ read, write ) exist **/
+            const auto end( Pointer::val( other->write_pt ) );
+            for( auto i( Pointer::val( other->read_pt ) ); i < end; i++ )
+            {
+                new ( &(this)->store[ i ] ) T( std::move( other->store[ i ] ) );
+                other->store[ i ].~T();
+            }
+        }
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
-- 
2.43.0


From 6fac4e364b564d82d99e94e5ab7fe68e7bf4d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 13/48] fix: a resize keeps the requested minimum size for
 externally allocated types too

---
 raftinc/bufferdata.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 8ac5744..6b0e494 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -296,6 +296,8 @@ template < class T >
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
+        /** since we might use this as a min size, make persistent **/
+        (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
    }
 
-- 
2.43.0


From dec92b0632aac7a3af321ef17eba24702c4a9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 14/48] fix: a reservation larger than the stream makes the
 stream grow

The requested count was recorded but nothing acted on it, with no element
written in between the blocked fraction stays zero as well, the writer
waited for ever.
---
 src/dynalloc.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index 8e7bd9f..178d847 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -96,6 +96,22 @@ dynalloc::run()
          return;
       }
 
+      /** 
+       * the writer asked for more than there is at once, it'll 
+       * never get that unless we make room.
+       */
+      const auto suggested( a.getFIFO()->get_suggested_count() );
+      auto new_size( a.getFIFO()->capacity() );
+      if( suggested > new_size )
+      {
+         while( new_size < suggested )
+         {
+            new_size *= 2;
+         }
+         a.getFIFO()->resize( new_size, ALLOC_ALIGN_WIDTH, exit_alloc );
+         return;
+      }
+
       const auto hash_val( dynalloc::hash( a, b ) );
       /** TODO, the values might wrap if no monitoring on **/
       const auto realized_ratio( a.getFIFO()->get_frac_write_blocked() );
-- 
2.43.0


From fa5201da1010d9d4296f913622aa6895bad090b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 15/48] fix: split only recycles the elements it has sent

---
 raftinc/split.tcc       | 7 ++++---
 raftinc/splitmethod.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..5e7e0a4 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,10 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const auto n_sent( split_func.send( range, output ) );
+      if( n_sent > 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
+         /* recycle the items sent, the others are sent next time */
+         output_port.recycle( n_sent );
       }
       else
       {
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..84c8f67 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,13 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  number of items sent, counted from the start of the range
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +81,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 1383ef0ef398cc8c537f436ee6c3aa112f1af7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/48] fix: forwarding an element and recycling it can happen
 in different runs

---
 raftinc/ringbufferheap.tcc |  5 +++++
 src/schedule.cpp           | 31 +++++++++++--------------------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 654aeba..d9dc980 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1297,6 +1297,11 @@ protected:
        * fix for bug #76 - jcb 18Nov2018, the object was allocated with
        * new by push or allocate, so give back its memory as well.
        */
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         /** gone, so it can't be forwarded anymore **/
+         (this)->consumer_data.in_peek->erase( reinterpret_cast< ptr_t >( head ) );
+      }
       delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..747abde 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,30 +273,21 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    /**
+     * every object that was recycled is deleted unless it has been
+     * forwarded. An object can be forwarded and recycled in different
+     * runs of the kernel, so keep what was peeked or forwarded till 
+     * the object is recycled.
+     */
+    for( auto &pair : *in )
     {
-        if( (*out_beg) != (*in_begin).first )
-        {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
-        }
-        else
+        peekset->erase( pair.first );
+        if( out->erase( pair.first ) == 0 )
         {
-            ++out_beg;
-            ++in_begin;
+            void * const ptr = reinterpret_cast< void* >( pair.first );
+            pair.second( ptr );
         }
     }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
-    }
     in->clear();
-    out->clear();
-    peekset->clear();
     return;
 }
-- 
2.43.0


From 68f106899ce5eabaaf03c2176f2cd31fc13dbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 17/48] fix: kernels on existing memory get an id of their own

---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From cc3207214d1d74b32c2d581579fa4c4a64e50817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 18/48] fix: combining chains of kernels keeps all of their
 links

---
 raftinc/kpair.hpp |  7 +++++++
 src/kpair.cpp     | 26 ++++++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..63e172a 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,13 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * last - the last pair of the chain that this one is part of,
+     * the chain starts at head.
+     * @return kpair*
+     */
+    kpair*       last() noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..fb6b3a0 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.last()->dst), b )
 {
     head        = a.head;
-    a.next  = this;
+    a.last()->next  = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
     head        = this;
-    next        = &n;
+    next        = n.head;
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,11 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.last()->dst), *(b.head->src) )
 {
     head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.last()->next = this;
+    next = b.head;
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +122,17 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+kpair*
+kpair::last() noexcept
+{
+    auto *ptr( head );
+    while( ptr->next != nullptr )
+    {
+        ptr = ptr->next;
+    }
+    return( ptr );
+}
+
 void 
 kpair::setOoO() noexcept
 {
-- 
2.43.0


From e9e3a3a4d61439b2cc07ea2d946ddd764d19050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 19/48] fix: a repeated chain repeats all of its kernels

---
 src/map.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..6b4b8be 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -598,6 +598,11 @@ raft::map::inline_dup_join( kernels_t &groups,
     
     /** should currently have only one kernel here **/
     assert( gp->size() == 1 );  
+    /** 
+     * the sources returned are the heads of the chains, get the
+     * first one now, the kpairs are modified below.
+     */
+    (*gp)[ 0 ] = next->head->src;
 #ifndef NDEBUG
     /** get count to satisfy postcondition at end **/
     const auto dst_inport_count( next->dst->input.count() );
@@ -653,7 +658,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 7c81234c2d571d8117b5c555f2faa18cd447de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 20/48] fix: joined kernels are grouped by the split around
 them

---
 src/map.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6b4b8be..d56b668 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,8 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** this split is done **/
+    split_stack.pop();
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +555,11 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            /** 
+             * grouped by the split that is still open around this 
+             * one, everything is one group if there's none 
+             */
+            count = ( split_stack.empty() ? groups.size() : split_stack.top() );
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +583,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From d5fb3689385eaf6fddef748c7baf67c63c5ad460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 21/48] fix: refuse a split without outputs and a join whose
 input ports do not match

---
 src/map.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index d56b668..50c83a3 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -447,6 +447,11 @@ raft::map::inline_split( split_stack_t &split_stack,
                          kernels_t     &temp_groups,
                          kpair * const next )
 {
+    if( next->src_out_count == 0 )
+    {
+        throw InvalidTopologyOperationException( 
+            "the kernel left of \"<=\" has no output port to split to\n" );
+    }
     split_stack.push( next->src_out_count );
     /**
      * for each kernel, create a destination
@@ -531,6 +536,12 @@ raft::map::inline_join( split_stack_t &split_stack,
      */
     auto joinfunc( [&]( up_group_t &group, kpair *n )
     {
+        if( n->dst->input.count() != group->size() )
+        {
+            throw InvalidTopologyOperationException( 
+                "the kernel right of \">=\" must have as many input ports as "
+                "there are streams to join\n" );
+        }
         auto it( group->begin() );
         for( auto port_it( n->dst->input.begin() );
                 port_it != n->dst->input.end(); ++port_it )
@@ -546,12 +557,6 @@ raft::map::inline_join( split_stack_t &split_stack,
 
     for( auto &group : groups )
     {
-        /**
-         * need to add exception for too many
-         * output ports for source, or too
-         * few input ports for destination
-         */
-
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
@@ -598,6 +603,11 @@ raft::map::inline_dup_join( kernels_t &groups,
      * to scale better. - jcb
      */
     assert( groups.size() == 1 );
+    if( next->dst->input.count() == 0 )
+    {
+        throw InvalidTopologyOperationException( 
+            "the kernel right of \">=\" has no input port to join to\n" );
+    }
     temp_groups.push_back( up_group_t( new group_t() ) );
     up_group_t &gp( groups[ 0 ] );
     
-- 
2.43.0


From a408e9095d418a109c481d54755f373494eac2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 22/48] fix: a map owns the internally allocated kernels of a
 refused expression

---
 raftinc/mapbase.hpp | 19 +++++++++++++------
 src/map.cpp         | 12 ++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..4df799d 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -219,13 +219,20 @@ protected:
          * here given it's issued before any destructors
          * should have been called.
          */
-        if( a->internal_alloc )
-        {
-            internally_created_kernels += a;
-        }
-        if( b->internal_alloc )
+        own( a );
+        own( b );
+    }
+
+    /**
+     * own - the map deletes kernel k if it was allocated
+     * internally, no matter how many times this is called.
+     * @param k - raft::kernel*
+     */
+    template < class K > void own( K &k )
+    {
+        if( k->internal_alloc )
         {
-            internally_created_kernels += b;
+            internally_created_kernels += k;
         }
     }
 
diff --git a/src/map.cpp b/src/map.cpp
index 50c83a3..92c20d4 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -214,6 +214,16 @@ raft::map::operator += ( kpair &p )
     kpair *next = pair->head;
     assert( next != nullptr );
     
+    /** 
+     * the map owns the internally allocated kernels of the whole
+     * expression from here on, even if it is refused below.
+     */
+    for( kpair *p = next; p != nullptr; p = p->next )
+    {
+        own( p->src );
+        own( p->dst );
+    }
+    
     /** init return struct **/
     kernel_pair_t ret_kernel_pair;
     
@@ -582,6 +592,7 @@ raft::map::inline_join( split_stack_t &split_stack,
              * we need to clone a kernel
              */
             auto *temp_groups_k( next->dst->clone() );
+            own( temp_groups_k );
             next->dst = temp_groups_k;
             temp_groups.back()->emplace_back( temp_groups_k );
             joinfunc( group, next );
@@ -666,6 +677,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     {
                         /** clone the sosurce **/
                         src = head_next->src->clone();
+                        own( src );
                         gp->emplace_back( src );
                     }
                     auto *dst( head_next->dst->clone() );
-- 
2.43.0


From eacb26413a53cd9315a2417d65b38b741500a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 23/48] fix: an unconnected port does not end a breadth first
 search

---
 src/graphtools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..7214bdb 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -125,7 +125,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
          else
          if( connected_error )
          {
-            assert( false );
             std::stringstream ss;
             ss << "Unconnected port detected at " <<
                common::printClassName( *k ) <<
@@ -135,7 +134,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
+         if( source.other_kernel != nullptr &&
+             visited_set.find( source.other_kernel ) == visited_set.end() )
          {
             queue.push( source.other_kernel );
             visited_set.insert( source.other_kernel );
-- 
2.43.0


From bbc88502e21383ccf24747a414cfc41693ac5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 24/48] fix: assigning a kernel wrapper transfers the kernel
 like copying it does

---
 raftinc/kernel_wrapper.hpp |  7 +++++++
 src/kernel_wrapper.cpp     | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/raftinc/kernel_wrapper.hpp b/raftinc/kernel_wrapper.hpp
index 7fbc300..d8848c8 100644
--- a/raftinc/kernel_wrapper.hpp
+++ b/raftinc/kernel_wrapper.hpp
@@ -52,6 +52,13 @@ public:
      */
     kernel_wrapper( const kernel_wrapper &other );
     
+    /**
+     * operator = - as the copy constructor, the kernel that
+     * was wrapped by this one before is deleted.
+     * @param   other - const kernel_wrapper
+     */
+    kernel_wrapper& operator = ( const kernel_wrapper &other );
+    
     /** 
      * destructor deletes stored kernel 
      * if it exits scope...should exit
diff --git a/src/kernel_wrapper.cpp b/src/kernel_wrapper.cpp
index e0a7f02..425dd7d 100644
--- a/src/kernel_wrapper.cpp
+++ b/src/kernel_wrapper.cpp
@@ -17,6 +17,7 @@
  * See the License for the specific language governing permissions and
  * limitations under the License.
  */
+#include <utility>
 #include "kernel_wrapper.hpp"
 #include "kernel.hpp"
 
@@ -34,6 +35,17 @@ kernel_wrapper::kernel_wrapper( const kernel_wrapper &other ) : k( other.k )
         = reinterpret_cast< raft::kernel* >( kernel_wrapper::sentinel ); 
 }
 
+kernel_wrapper& kernel_wrapper::operator = ( const kernel_wrapper &other )
+{
+    if( this != &other )
+    {
+        /** takes ownership, the old kernel goes with the temporary **/
+        kernel_wrapper temp( other );
+        std::swap( k, temp.k );
+    }
+    return( (*this) );
+}
+
 kernel_wrapper::~kernel_wrapper()
 {
     /** 
-- 
2.43.0


From 97897de4fde7d44a389577c7704ba66352a5367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 25/48] fix: refuse in place ports whose name exists already

addInPlacePorts ignored the result of the insertion, so that a name that was
declared before silently kept its old type and memory while the caller was
told that the port had been added; addPort throws PortAlreadyExists.
---
 raftinc/port.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raftinc/port.hpp b/raftinc/port.hpp
index 7abf7f0..2a0108f 100644
--- a/raftinc/port.hpp
+++ b/raftinc/port.hpp
@@ -194,7 +194,11 @@ public:
          (this)->initializeConstMap< T >( pi );
          (this)->initializeSplit<    T >( pi );
          (this)->initializeJoin<     T >( pi );
-         portmap.map.insert( std::make_pair( name, pi ) );
+         const auto ret_val( portmap.map.insert( std::make_pair( name, pi ) ) );
+         if( ! ret_val.second )
+         {
+            throw PortAlreadyExists( "FATAL ERROR: port \"" + std::to_string( index ) + "\" already exists!" );
+         }
 #ifndef STRING_NAMES
          portmap.name_map.insert( std::make_pair( name, raft::port_key_name_t( index, std::to_string( index ) ) ) );
 #endif         
-- 
2.43.0


From 2493c6aaef0e45680fb65ac24bc0bc30e8e443a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 26/48] fix: adding no in place ports does not divide by zero

---
 raftinc/port.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/port.hpp b/raftinc/port.hpp
index 2a0108f..db9d6ac 100644
--- a/raftinc/port.hpp
+++ b/raftinc/port.hpp
@@ -164,6 +164,11 @@ public:
    template < class T >
    bool addInPlacePorts( const std::size_t n_ports )
    {
+      if( n_ports == 0 )
+      {
+         /** nothing to divide the buffer over **/
+         return( true );
+      }
       T *existing_buff_t( reinterpret_cast< T* >( alloc_ptr ) );
       std::size_t length( alloc_ptr_length / sizeof( T ) );
       const std::size_t inc( length / n_ports );
-- 
2.43.0


From 7d26cb4ca5c26c739bf8886a24fc460bfbe3f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 27/48] fix: partition over one core when their number is not
 known

std::thread::hardware_concurrency() returns zero when it cannot tell, which
ended in a division by zero.
---
 src/partition_basic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partition_basic.cpp b/src/partition_basic.cpp
index 822a325..4fc6b4c 100644
--- a/src/partition_basic.cpp
+++ b/src/partition_basic.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <thread>
 #include "partition_basic.hpp"
 
@@ -5,7 +6,8 @@
 void
 partition_basic::partition( kernelkeeper &c )
 {
-    const auto num_cores( std::thread::hardware_concurrency() );
+    /** zero means that the number of cores is not known **/
+    const auto num_cores( std::max( 1u, std::thread::hardware_concurrency() ) );
     core_id_t i( 0 );
     auto &container( c.acquire() );
     for( auto *kernel : container )
-- 
2.43.0


From f870ce361d7c92ea40ad91db907033d06dddada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 28/48] fix: a kernel thread knows its core before it starts

The thread of a kernel was started by the constructor of its descriptor and
the core it was to be pinned to was only stored afterwards, so that a thread
that was quick enough ignored the placement.
---
 raftinc/simpleschedule.hpp | 13 +++++++++----
 src/simpleschedule.cpp     |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..6d57b46 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t core ) : k( k ),
+                                                      finished( fin ),
+                                                      loc( core ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,11 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      /** NOTE: the thread starts here, all it needs must be set before **/
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t core ) : data( kernel, 
+                                                    &finished,
+                                                    core ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..29b78f1 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,8 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      auto * const th_info( new thread_info_t( kernel, 
+                                               kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From f9322986a00407c512801c12d2695d07c23f6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 29/48] fix: streams on existing memory have a signal for every
 element

The signal array of a stream on existing memory had room for one signal only,
but it is indexed with the position of the element like that of any other
stream: reading past the first element read beyond its end.
---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 6b0e494..292604d 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -211,7 +211,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From 3ae1dfd6fdfcafd3f2215233d44b02e339200228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 30/48] fix: a range of an array processed in place knows its
 index

getindex() returned the index of the first element of the whole part of the
array, also for ranges that start further in.
---
 raftinc/autorelease.tcc |  5 +++--
 raftinc/bufferdata.tcc  | 14 ++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/raftinc/autorelease.tcc b/raftinc/autorelease.tcc
index 1584b2e..461a3b1 100644
--- a/raftinc/autorelease.tcc
+++ b/raftinc/autorelease.tcc
@@ -161,13 +161,14 @@ public:
    }
 
    /**
-    * getindex - returns index for foreach constructs,
+    * getindex - returns index of the first element of
+    * this range for foreach constructs,
     * future versions will deprecate this for all types
     * but that one.
     */
    std::size_t getindex() noexcept
    {
-      return( signal[ 0 ] .getindex() );
+      return( signal[ crp ].getindex() );
    }
 
    std::size_t size() noexcept
diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 292604d..6c77fe4 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -71,8 +71,11 @@ template < class T > struct Data< T,
            exit( EXIT_FAILURE );
         }
         
-        /** set index to be start_position **/
-        (this)->signal[ 0 ].index  = start_position; 
+        /** every element knows its index, the first is start_position **/
+        for( std::size_t i( 0 ); i < max_cap; i++ )
+        {
+            (this)->signal[ i ].index  = start_position + i; 
+        }
 
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
@@ -218,8 +221,11 @@ template < class T >
            perror( "Failed to allocate signal queue!" );
            exit( EXIT_FAILURE );
         }
-        /** set index to be start_position **/
-        (this)->signal[ 0 ].index  = start_position; 
+        /** every element knows its index, the first is start_position **/
+        for( std::size_t i( 0 ); i < max_cap; i++ )
+        {
+            (this)->signal[ i ].index  = start_position + i; 
+        }
         /** allocate read and write pointers **/
         
         /** allocate read and write pointers **/
-- 
2.43.0


From 6e8373391fd2b5d597d837cf94bbd5cb1eac7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 31/48] fix: the objects of an array processed in place stay
 alive

They belong to the caller, but were destroyed one by one as they were read.
---
 raftinc/ringbufferheap.tcc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index d9dc980..2f50b6e 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -608,7 +608,10 @@ protected:
          auto *ptr =
             reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
          /** call destructor direct, faster than recyle func **/
-         ptr->~T();
+         if( ! buff_ptr->external_alloc )
+         {
+            ptr->~T();
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -815,7 +818,10 @@ protected:
        * #76 -jcb 18Nov2018
        * - applying same fix to out-of-band objects
        */
-      ( &buff_ptr->store[ read_index ] )->~T();
+      if( ! buff_ptr->external_alloc )
+      {
+         ( &buff_ptr->store[ read_index ] )->~T();
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From 2dbd121ba8564bc391278705ed5f263bc35fbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 32/48] fix: process arrays of large elements in place

A stream of elements larger than a cache line holds pointers, but a stream on
an existing array took the elements themselves for pointers.  Point at the
elements of the array, and leave them to their owner.
---
 raftinc/bufferdata.tcc     | 26 +++++++++++++++++------
 raftinc/ringbufferheap.tcc | 43 ++++++++++++++++++++++++--------------
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 6c77fe4..8c040c5 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -213,7 +213,17 @@ template < class T >
          const std::size_t start_position ) : ourtype_t( max_cap )
    {
         assert( ptr != nullptr );
-        (this)->store  = reinterpret_cast< type_t* >( ptr );
+        /** pointers to the objects, which aren't ours **/
+        (this)->store  = (type_t*) calloc( (this)->max_cap, sizeof( type_t ) );
+        if( (this)->store == nullptr )
+        {
+           perror( "Failed to allocate pointer queue!" );
+           exit( EXIT_FAILURE );
+        }
+        for( std::size_t i( 0 ); i < max_cap; i++ )
+        {
+            (this)->store[ i ] = ptr + i;
+        }
         (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
@@ -310,15 +320,19 @@ template < class T >
 
    virtual ~Data()
    {
-      //FREE USED HERE
-      if( ! (this)->external_alloc )
-      {
+      //FREE USED HERE, the pointers are always ours
 #if (defined _WIN64 ) || (defined _WIN32) 
+      if( (this)->external_alloc )
+      {
+         free( (this)->store );
+      }
+      else
+      {
 		 _aligned_free( (this)->store );
+      }
 #else
-         free( (this)->store );
+      free( (this)->store );
 #endif
-      }
       free( (this)->signal );
    }
 
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2f50b6e..8d4744d 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1062,20 +1062,24 @@ protected:
          auto **ptr( reinterpret_cast< void** >( &( buff_ptr->store[ read_index ] ) )
          );
 
-         (this)->consumer_data.in->insert(
-            std::make_pair( reinterpret_cast< std::uintptr_t >( *ptr ),
-                            []( void * ptr )
-                            {
-                                auto *actual_ptr(
-                                    reinterpret_cast< T* >( ptr )
-                                );
-                                /** 
-                                 * bugfix for issue #37, memory leak, copy paste
-                                 * error resulted in destructor being called, but
-                                 * no deallocate. - jcb 15 July 2017
-                                 */
-                                delete( actual_ptr );
-                            } ) );
+         /** objects of an existing array aren't ours to delete **/
+         if( ! buff_ptr->external_alloc )
+         {
+            (this)->consumer_data.in->insert(
+               std::make_pair( reinterpret_cast< std::uintptr_t >( *ptr ),
+                               []( void * ptr )
+                               {
+                                   auto *actual_ptr(
+                                       reinterpret_cast< T* >( ptr )
+                                   );
+                                   /** 
+                                    * bugfix for issue #37, memory leak, copy paste
+                                    * error resulted in destructor being called, but
+                                    * no deallocate. - jcb 15 July 2017
+                                    */
+                                   delete( actual_ptr );
+                               } ) );
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -1308,7 +1312,10 @@ protected:
          /** gone, so it can't be forwarded anymore **/
          (this)->consumer_data.in_peek->erase( reinterpret_cast< ptr_t >( head ) );
       }
-      delete( head );
+      if( ! buff_ptr->external_alloc )
+      {
+         delete( head );
+      }
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
@@ -1365,7 +1372,11 @@ protected:
                       sizeof( T ) < sizeof( std::uintptr_t ) << 7 ?
                       sizeof( T ) : sizeof( std::uintptr_t ) << 7
                       >( **real_ptr );
-      (this)->consumer_data.in_peek->insert( reinterpret_cast< ptr_t >( **real_ptr ) );
+      /** objects of an existing array can't be handed on, only copied **/
+      if( ! buff_ptr->external_alloc )
+      {
+         (this)->consumer_data.in_peek->insert( reinterpret_cast< ptr_t >( **real_ptr ) );
+      }
       return;
       /**
        * exitBuffer() called when recycle is called, can't be sure the
-- 
2.43.0


From 88a50205febecdcb5cab269075e12f7e6d559a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 33/48] fix: arrays with fewer elements than workers

The parts without elements became streams of capacity zero.
---
 src/allocate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocate.cpp b/src/allocate.cpp
index 50a271e..5ede8e0 100644
--- a/src/allocate.cpp
+++ b/src/allocate.cpp
@@ -91,7 +91,8 @@ Allocate::allocate( PortInfo &a, PortInfo &b, void *data )
    auto &func_map( a.const_map[ Type::Heap ] );
    auto test_func( (*func_map)[ false ] );
 
-   if( a.existing_buffer != nullptr )
+   /** a part without elements is just an empty stream **/
+   if( a.existing_buffer != nullptr && a.nitems != 0 )
    {
       fifo = test_func( a.nitems,
                         a.start_index,
-- 
2.43.0


From 8203391323f81abaf3802ae0bdfb70b3b72df653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 34/48] fix: a range of large elements can be looked at

peek_range on elements held outside of the ring asserted, and the range took
the pointers in the ring for the elements. write_each and split use it.
---
 raftinc/autorelease.tcc | 12 +++++++++++-
 raftinc/fifo.hpp        |  2 --
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/raftinc/autorelease.tcc b/raftinc/autorelease.tcc
index 461a3b1..28562cf 100644
--- a/raftinc/autorelease.tcc
+++ b/raftinc/autorelease.tcc
@@ -26,6 +26,7 @@
 #ifndef RAFTAUTORELEASE_TCC
 #define RAFTAUTORELEASE_TCC  1
 
+#include "alloc_traits.tcc"
 #include "autoreleasebase.hpp"
 
 template< class T > using pop_range_t = std::vector< std::pair< T , raft::signal > >;
@@ -156,7 +157,16 @@ public:
       else
       {
          std::size_t ptr_val( (index + crp) % queue_size );
-         return( std::move( autopair< T >( queue[ ptr_val ], signal[ ptr_val ] ) ) );
+         if constexpr( ext_alloc< T >::value )
+         {
+            /** the queue holds pointers to the elements **/
+            return( autopair< T >( *reinterpret_cast< T** >( queue )[ ptr_val ], 
+                                   signal[ ptr_val ] ) );
+         }
+         else
+         {
+            return( autopair< T >( queue[ ptr_val ], signal[ ptr_val ] ) );
+         }
       }
    }
 
diff --git a/raftinc/fifo.hpp b/raftinc/fifo.hpp
index 72afda9..d628601 100644
--- a/raftinc/fifo.hpp
+++ b/raftinc/fifo.hpp
@@ -409,8 +409,6 @@ public:
    auto  peek_range( const std::size_t n ) -> 
       autorelease< T, peekrange >
    {
-      /** FIXME: still not implemented yet for externally allocated objects **/
-      assert( false );
       void *ptr = nullptr;
       void *sig = nullptr;
       std::size_t curr_pointer_loc( 0 );
-- 
2.43.0


From acf97beba31b02be355279582a2f1806b6c5ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 35/48] fix: read each element of single pass iterators

run() moved two copies of the iterator, those of an input stream share their
position and every other element was lost.
---
 raftinc/readeach.tcc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raftinc/readeach.tcc b/raftinc/readeach.tcc
index bb3d6fb..63a79fa 100644
--- a/raftinc/readeach.tcc
+++ b/raftinc/readeach.tcc
@@ -54,11 +54,10 @@ public:
 
     virtual raft::kstatus run()
     {
-        for( auto it( begin ); it != end; ++it )
+        for( ; begin != end; ++begin )
         {
             auto val( output[ "0" ].template allocate_s< T >() );
             (*val) = (*begin);
-            ++begin;
         }
         return( raft::stop );
     }
-- 
2.43.0


From 0c5ab31c0dfac523025da0c53d9e8305d3ff5c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 36/48] fix: a clone of a print kernel has all of its ports

input_port_count was always one.
---
 raftinc/print.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..dab77cf 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -81,7 +83,7 @@ public:
     }
 
 protected:
-    const std::size_t input_port_count    = 1;
+    const std::size_t input_port_count;
 };
 
 template< typename T, char delim = '\0' > class print : public printabstract< T >
-- 
2.43.0


From e99b7eafc7cffd8527edfa4187280a07c47bc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 37/48] fix: generating no random variates

---
 raftinc/random.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..ff4e080 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -75,6 +75,11 @@ public:
 
     virtual raft::kstatus run()
     {
+        if( count_of_sent >= N )
+        {
+            /** nothing (left) to generate **/
+            return( raft::stop );
+        }
         for( auto &p : output )
         {
             p.push( dist( gen ) );
-- 
2.43.0


From d1bc627f041a25a781f064a951f115db16b1911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 38/48] fix: matches are reported at their offset in the file

The start of the chunk was added twice.
---
 raftinc/search.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..8345501 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,8 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            /** location() is relative to the start of the file **/
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From eab6fd3b91840b66655572f17b218280687ad8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 39/48] fix: copies of a chunk keep its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..4c26652 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 9d5867d75cbe78bc63899d6b2529c5db0a3e6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 40/48] fix: read a file to its end and no further

The number of chunks was computed with the wrong overlap and in single
precision, so that the end of a file was missed, and one chunk too many was
read.
---
 raftinc/fileio.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..fac6eee 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,13 +83,18 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
+      const std::int64_t payload( chunktype::getChunkSize() - 1 );
+      /** each chunk but the first starts within the one before **/
+      const std::int64_t stride( payload - chunk_offset );
+      if( stride <= 0 )
       {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
+         std::cerr << "the offset of the chunks must be less than their size, exiting!\n";
+         exit( EXIT_FAILURE );
       }
-      else
+      iterations = 1;
+      if( length > payload )
       {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
+         iterations += ( length - payload + stride - 1 ) / stride;
       }
    }
 
@@ -122,7 +127,7 @@ public:
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations == 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From 33fe27cf2e16718bc968a667abbab4fefb56cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 41/48] fix: the last chunk of a file is marked

The comparison was an unsigned one, only one of the last chunks was marked.
---
 raftinc/fileio.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index fac6eee..906675a 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -122,7 +122,7 @@ public:
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
             port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
+               iterations > static_cast< std::int64_t >( output.count() ) /* num ports */ ?
                   raft::none :
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
-- 
2.43.0


From 8cee2fae5149bb88fd8bff5acf2a881af9e20451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 42/48] fix: the number of elements is never read half updated

size() put together four words (index and wrap count of both ends) that
another thread may be changing: a stream filled meanwhile looked empty,
one emptied meanwhile looked full. The ends count their increments in one
word each, and the two are read so that they belong together.
---
 raftinc/pointer.hpp                 | 10 ++++++
 raftinc/ringbufferheap_abstract.tcc | 54 ++++++-----------------------
 src/pointer.cpp                     | 10 ++++++
 3 files changed, 31 insertions(+), 43 deletions(-)

diff --git a/raftinc/pointer.hpp b/raftinc/pointer.hpp
index 498473a..7335e34 100644
--- a/raftinc/pointer.hpp
+++ b/raftinc/pointer.hpp
@@ -87,6 +87,15 @@ public:
     * @return  std::size_t
     */
    static std::size_t wrapIndicator( Pointer &ptr ) ;
+
+   /**
+    * count - returns the number of increments so far, the 
+    * difference of two is the number of positions between
+    * them. One word, i.e., unlike the pair of val and 
+    * wrapIndicator it's never seen half updated.
+    * @return  std::size_t
+    */
+   static std::size_t count( Pointer &ptr ) ;
    
 private:
      std::uint64_t           a  = 0;
@@ -106,6 +115,7 @@ private:
 #ifdef JVEC_MACHINE    
      wrap_t    wrap_b  = 0;
 #endif    
+    std::size_t               total   = 0;
     const    std::size_t      max_cap;
 };
 #endif /* END RAFTPOINTER_HPP */
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 1c853a1..5cafd45 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -50,51 +50,19 @@ public:
          if( (this)->datamanager.notResizing() )
          {
             auto * const buff_ptr( (this)->datamanager.get() );
-TOP:      
-            const auto   wrap_write( Pointer::wrapIndicator( buff_ptr->write_pt  ) ),
-                         wrap_read(  Pointer::wrapIndicator( buff_ptr->read_pt   ) );
-
-            const auto   wpt( Pointer::val( buff_ptr->write_pt ) ), 
-                         rpt( Pointer::val( buff_ptr->read_pt  ) );
-            if( R_UNLIKELY (wpt == rpt) )
-            {
-               /** expect most of the time to be full **/
-               if( R_LIKELY( wrap_read < wrap_write ) )
-               {
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( buff_ptr->max_cap );
-               }
-               else if( wrap_read > wrap_write )
-               {
-                  /**
-                   * TODO, this condition is momentary, however there
-                   * is a better way to fix this with atomic operations...
-                   * or on second thought benchmarking shows the atomic
-                   * operations slows the queue down drastically so, perhaps
-                   * this is in fact the best of all possible returns (see 
-                   * Leibniz or Candide for further info).
-                   */
-                  raft::yield();
-                  goto TOP;
-               }
-               else
-               {
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( 0 );
-               }
-            }
-            else if( rpt < wpt )
-            {
-               (this)->datamanager.exitBuffer( dm::size );
-               return( wpt - rpt );
-            }
-            else if( rpt > wpt )
+            /** 
+             * both ends might move while looking, the counts 
+             * belong together if the first one is still the 
+             * same after the second one is read.
+             */
+            std::size_t written( 0 ), taken( 0 );
+            do
             {
-               (this)->datamanager.exitBuffer( dm::size );
-               return( buff_ptr->max_cap - rpt + wpt ); 
-            }
+               written = Pointer::count( buff_ptr->write_pt );
+               taken   = Pointer::count( buff_ptr->read_pt  );
+            }while( written != Pointer::count( buff_ptr->write_pt ) );
             (this)->datamanager.exitBuffer( dm::size );
-            return( 0 );
+            return( written - taken );
          }
          (this)->datamanager.exitBuffer( dm::size );
          raft::yield();
diff --git a/src/pointer.cpp b/src/pointer.cpp
index e64120c..5ebfebd 100644
--- a/src/pointer.cpp
+++ b/src/pointer.cpp
@@ -29,6 +29,7 @@ Pointer::Pointer(const std::size_t cap,
 #ifdef JVEC_MACHINE
     wrap_b = wrap_set;
 #endif    
+    total  = cap * wrap_set;
 }
 
 
@@ -40,6 +41,7 @@ Pointer::Pointer( Pointer &other,
 #ifdef JVEC_MACHINE
     b = val;
 #endif
+    total = val;
     return;
 }
 
@@ -79,6 +81,7 @@ Pointer::inc( Pointer &ptr )
       ptr.wrap_a++;
    }
 #endif
+   ptr.total++;
 }
 
 void
@@ -100,6 +103,7 @@ Pointer::incBy( Pointer &ptr,
       ptr.wrap_a++;
    }
 #endif
+   ptr.total += in;
 }
 
 std::size_t 
@@ -119,3 +123,9 @@ Pointer::wrapIndicator( Pointer &ptr )
     return( ptr.wrap_a );
 #endif
 }
+
+std::size_t
+Pointer::count( Pointer &ptr )
+{
+    return( ptr.total );
+}
-- 
2.43.0


From 853e19766c02b3ef643fb8398d927b1f6cbec686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 43/48] fix: looking at a range tells an exhausted stream from
 one with too little left

A reader waiting for a range on an empty stream was told that too few
elements are left, which kernels need not expect, if the stream was
closed between the two tests. Sizes are final once a stream is closed.
---
 raftinc/ringbufferheap.tcc | 52 ++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 8d4744d..6287c16 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -442,13 +442,18 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
-            {
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
+            else if( (this)->is_invalid() )
             {
+               /** nothing is added any more, i.e., these sizes are final **/
+               if( (this)->size() >= n )
+               {
+                  break;
+               }
+               if( (this)->size() == 0 )
+               {
+                  throw ClosedPortAccessException(
+                     "Accessing closed port with local_peek_range call, exiting!!" );
+               }
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -894,13 +899,18 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
-            {
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
+            else if( (this)->is_invalid() )
             {
+               /** nothing is added any more, i.e., these sizes are final **/
+               if( (this)->size() >= n )
+               {
+                  break;
+               }
+               if( (this)->size() == 0 )
+               {
+                  throw ClosedPortAccessException(
+                     "Accessing closed port with local_peek_range call, exiting!!" );
+               }
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -1400,15 +1410,19 @@ protected:
             {
                break;
             }
-            else if( (this)->is_invalid() && (this)->size() == 0 )
-            {
-               (this)->datamanager.exitBuffer( dm::peek );
-               throw ClosedPortAccessException(
-                  "Accessing closed port with local_peek_range call, exiting!!" );
-            }
-            else if( (this)->is_invalid() && (this)->size() < n )
+            else if( (this)->is_invalid() )
             {
+               /** nothing is added any more, i.e., these sizes are final **/
+               if( (this)->size() >= n )
+               {
+                  break;
+               }
                (this)->datamanager.exitBuffer( dm::peek );
+               if( (this)->size() == 0 )
+               {
+                  throw ClosedPortAccessException(
+                     "Accessing closed port with local_peek_range call, exiting!!" );
+               }
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
-- 
2.43.0


From fbb4ba73c92a48acf67c1f70e4cbcfa0da5ccbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 44/48] fix: a refused link leaves the buffer sizes of existing
 streams alone

---
 raftinc/mapbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index 4df799d..4daea65 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,13 +129,15 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
 
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
+        /** not before the link is made, a refused one changes no stream **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
         
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
-- 
2.43.0


From ff8439840db03b1ed0dc07d315c0051108e5a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 45/48] fix: count how often a writer was blocked for each
 stream of its own

The counters of two streams whose port addresses agree in their low 16
bits were one, so that a stream grew after its writer had been found
blocked once, and others did not.
---
 raftinc/dynalloc.hpp | 17 -----------------
 src/dynalloc.cpp     | 30 ++++++------------------------
 2 files changed, 6 insertions(+), 41 deletions(-)

diff --git a/raftinc/dynalloc.hpp b/raftinc/dynalloc.hpp
index 03afe90..93dba7a 100644
--- a/raftinc/dynalloc.hpp
+++ b/raftinc/dynalloc.hpp
@@ -40,23 +40,6 @@ public:
      * the scheduler.
      */
     virtual void run();
-
-private:
-    /**
-     * hash - simple hash function to quickly
-     * look-up stats on individual FIFO objects
-     * within the streaming app, based on 
-     * addresses of each queue, one consequence
-     * obviously is that the info is trash once
-     * the FIFO is re-allocated, but this is a 
-     * good thing since we don't typically want
-     * stats to hang around.
-     * @param a, PortInfo& - src portinfo
-     * @param b, PortInfo& - dst portinfo
-     * @return std::size_t
-     */
-    static std::size_t hash( PortInfo &a, 
-                             PortInfo &b );
 };
 
 #endif /* END RAFTDYNALLOC_HPP */
diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index 178d847..bc32509 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -43,24 +43,6 @@ dynalloc::~dynalloc()
 {
 }
 
-std::size_t
-dynalloc::hash( PortInfo &a, PortInfo &b )
-{
-   union{
-      std::size_t      all;
-      struct a_and_b{
-         std::uint32_t a;
-         std::uint32_t b;
-      } ab;
-   } u;
-   const auto ta( (std::uint64_t)(& a ) );
-   const auto tb( (std::uint64_t)(& b ) );
-   u.ab.a = ta & 0xffff;
-   u.ab.b = tb & 0xffff;
-   return( u.all );
-}
-
-
 void
 dynalloc::run()
 {
@@ -75,7 +57,8 @@ dynalloc::run()
    GraphTools::BFS( container, alloc_func );
    (this)->source_kernels.release();
    (this)->setReady();
-   std::map< std::size_t, int > size_map;
+   /** number of times each stream has been found blocked **/
+   std::map< FIFO*, int > size_map;
 
    /**
     * make this a fixed quantity right now, if size > .75% at
@@ -84,6 +67,7 @@ dynalloc::run()
 
    auto mon_func = [&]( PortInfo &a, PortInfo &b, void *data ) -> void
    {
+      (void) b;
       (void) data;
       /** 
        * return if fixed buffer specified for this link
@@ -112,20 +96,18 @@ dynalloc::run()
          return;
       }
 
-      const auto hash_val( dynalloc::hash( a, b ) );
+      auto * const buff_ptr( a.getFIFO() );
       /** TODO, the values might wrap if no monitoring on **/
       const auto realized_ratio( a.getFIFO()->get_frac_write_blocked() );
       const auto ratio( 0.8 );
       if( realized_ratio >= ratio )
       {
-         const auto curr_count( size_map[ hash_val ]++ );
+         const auto curr_count( size_map[ buff_ptr ]++ );
          if( curr_count  > 2 )
          {
-            /** get initializer function **/
-            auto * const buff_ptr( a.getFIFO() );
             const auto cap( buff_ptr->capacity() );
             buff_ptr->resize( cap * 2, ALLOC_ALIGN_WIDTH, exit_alloc );
-            size_map[ hash_val ] = 0;
+            size_map[ buff_ptr ] = 0;
          }
       }
       return;
-- 
2.43.0


From d814570e930d74c6c0daae3438ca620f4a7b6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 46/48] fix: kernels made by several threads at once have
 identities of their own

---
 raftinc/kernel.hpp | 2 +-
 src/kernel.cpp     | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/raftinc/kernel.hpp b/raftinc/kernel.hpp
index dfd2950..c64c235 100644
--- a/raftinc/kernel.hpp
+++ b/raftinc/kernel.hpp
@@ -217,7 +217,7 @@ protected:
      * compute kernels, for multi-process, this is used in 
      * conjunction with process identifier.
      */
-    static std::size_t kernel_count;
+    static std::atomic< std::size_t > kernel_count;
     
 #ifdef BENCHMARK
     static std::atomic< std::size_t > initialized_count;
diff --git a/src/kernel.cpp b/src/kernel.cpp
index 8a6848a..9fc3f6c 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -5,16 +5,15 @@
 
 using namespace raft;
 
-std::size_t kernel::kernel_count( 0 );
+std::atomic< std::size_t > kernel::kernel_count( 0 );
 
 #ifdef BENCHMARK
     std::atomic< std::size_t > kernel::initialized_count( 0 );
 #endif
 
 /** default **/
-kernel::kernel() : kernel_id( kernel::kernel_count )
+kernel::kernel() : kernel_id( kernel::kernel_count++ )
 {
-   kernel::kernel_count++;
 }
 
 /** existing memory **/
@@ -22,9 +21,8 @@ kernel::kernel( void * const ptr,
                 const std::size_t nbytes ) :
    input(  this, ptr, nbytes ),
    output( this, ptr, nbytes ),
-   kernel_id( kernel::kernel_count )
+   kernel_id( kernel::kernel_count++ )
 {
-   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From ea95a250914126ec1123d252c71d6ea6f68dc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:02 +0000
Subject: [PATCH 47/48] fix: raft::range stays inside its vector and its type

The loops ran one step past the (inclusive) end and wrote behind the
vector, for every range whose length is a multiple of delta; unsigned
ranges down to less than delta wrapped, and ends were compared as double.
---
 raftinc/utility.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..edc4e48 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -27,6 +27,7 @@
 #include <utility>
 #include <type_traits>
 #include <cmath>
+#include <limits>
 
 namespace raft
 {
@@ -61,30 +62,28 @@ range( const A a,
        const B b, 
        const common_t< A, B > delta = 1 )
 {
-  if( std::isless( a, b ) )
+  using T = common_t< A, B >;
+  using limits = std::numeric_limits< T >;
+  const T first( a ), last( b );
+  common_v_t< A, B > out;
+  if( first < last )
   {
-     const auto cap( (b - a + delta) / delta );
-     common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+     for( T i( first ); i <= last; i += delta )
      {
-        out[ index ] = i;
+        out.push_back( i );
+        /** the next one can't be represented, so it is past last **/
+        if( i > limits::max() - delta ){ break; }
      }
-     return( std::move( out ) );
   }
   else
   {
-     const auto cap( (a - b + delta ) / delta );
-     common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+     for( T i( first ); i >= last; i -= delta )
      {
-        out[ index ] = i;
+        out.push_back( i );
+        if( i < limits::lowest() + delta ){ break; }
      }
-     return( std::move( out ) );
   }
+  return( out );
 }
 }
 #endif /* END RAFTUTILITY_HPP */
-- 
2.43.0


From 322b20ac97afd23e67742d7ea227e56c6ac19b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:30 +0000
Subject: [PATCH 48/48] fix: buffers are not freed under a thread that just
 started to use them

The flag a thread raises before it looks if the buffer is being replaced
was still in its store buffer when the one replacing it looked at the flags
(and the other way round), so neither noticed the other: elements were lost
or a freed buffer was used, within seconds on x86.
---
 raftinc/datamanager.tcc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 570ad1a..1dddb80 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -142,6 +142,11 @@ public:
          }
          /** set resizing global flag **/
          resizing = true;
+         /**
+          * has to be seen by all before looking at who is using
+          * the buffer, see enterBuffer.
+          */
+         std::atomic_thread_fence( std::memory_order_seq_cst );
          /** see if everybody is done with the current buffer **/
          if( allclear( thread_access, &checking_size ) )
          {
@@ -196,6 +201,13 @@ public:
                   static_cast< dm::key_t >( 1 ),
                   thread_access,
                   &checking_size );
+      /**
+       * what's next is the check for resizing, a load which must not
+       * overtake the store above, otherwise neither this thread nor
+       * the one resizing notices the other and the buffer is freed
+       * while in use.
+       */
+      std::atomic_thread_fence( std::memory_order_seq_cst );
    }
 
    /**
-- 
2.43.0

