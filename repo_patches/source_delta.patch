From 9483974461683679101097413688cbc40868800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 01/12] fix: stack: ranged push of an empty range must not
 dereference the end iterator

---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..1199ac2 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = end;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From 5a44625f0c9c3ff172901e63bc4fea95f570840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/12] fix: stack: ranged push must compile for fixed-sized
 stacks

---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 1199ac2..99f20c9 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -297,7 +297,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -306,14 +306,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From 83ea96f96a79b2078d6ba83b45164069f474ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 03/12] fix: queue: unsynchronized_push must compile for
 fixed-sized queues

---
 include/boost/lockfree/queue.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..67eb770 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -382,16 +382,19 @@ public:
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                handle_type node_handle = pool.get_handle( n );
+                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 5ad18a918fc48da28fe9f434b4a87fa28496d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 04/12] fix: freelist: give the node back if constructing the
 element throws

---
 include/boost/lockfree/detail/freelist.hpp | 76 +++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..3ac48a3 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -78,8 +79,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -87,8 +98,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -96,8 +117,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -443,7 +474,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -455,7 +495,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -467,7 +516,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From 8626ae7faeba9a5feb0eb8ffded4b85aa0af3104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 05/12] fix: freelist: release the nodes already allocated if
 the constructor runs out of memory

---
 include/boost/lockfree/detail/freelist.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 3ac48a3..87d82da 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -54,15 +54,25 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            while ( T* node = allocate_impl_unsafe< true >() )
+                Alloc::deallocate( node, 1 );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
-- 
2.43.0


From a955f4d59d3bfad2b1ae8912b4200433be079357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 06/12] fix: spsc_queue: destroy the first section if copying
 the second section of a pushed range throws

---
 include/boost/lockfree/spsc_queue.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..1d83a3b 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,17 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                for ( T* it = internal_buffer + write_index; it != internal_buffer + max_size; ++it )
+                    it->~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 2745baa0f639791a0c11f2965eecca68ccda7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 07/12] fix: queue: reject a size whose node count would wrap
 around to zero

---
 include/boost/lockfree/queue.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 67eb770..56bc706 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -11,10 +11,14 @@
 #ifndef BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 #define BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 
+#include <limits>
+#include <stdexcept>
+
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY & BOOST_ALIGNMENT
 #include <boost/core/allocator_access.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/throw_exception.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 
@@ -147,6 +151,13 @@ private:
         tail_.store( dummy_node, memory_order_release );
     }
 
+    static std::size_t pool_size( std::size_t n )
+    {
+        if ( n == ( std::numeric_limits< std::size_t >::max )() )
+            boost::throw_exception( std::runtime_error( "boost.lockfree: queue size too large" ) );
+        return n + 1; // the queue uses one dummy node
+    }
+
     struct implementation_defined
     {
         typedef node_allocator allocator;
@@ -229,7 +240,7 @@ public:
     explicit queue( size_type n ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( node_allocator(), n + 1 )
+        pool( node_allocator(), pool_size( n ) )
     {
         // Don't use BOOST_STATIC_ASSERT() here since it will be evaluated when compiling
         // this function and this function may be compiled even when it isn't being used.
@@ -247,7 +258,7 @@ public:
     queue( size_type n, typename boost::allocator_rebind< node_allocator, U >::type const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, pool_size( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
@@ -262,7 +273,7 @@ public:
     queue( size_type n, allocator const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, pool_size( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
-- 
2.43.0


From 68ce010365521c6b3a9c742a28e694b4b578d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 08/12] fix: queue, stack: do not ignore the last one of three
 storage policies

---
 include/boost/lockfree/queue.hpp | 4 +++-
 include/boost/lockfree/stack.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 56bc706..8430f8d 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -51,7 +51,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     queue_signature;
 
 } /* namespace detail */
diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 99f20c9..39206b9 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -31,7 +31,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     stack_signature;
 
 } // namespace detail
-- 
2.43.0


From abe8c02e62adf5e95406672c920adc1b0f996a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 09/12] fix: align compile-time sized storage for elements with
 extended alignment

stack and queue with capacity<> aligned their nodes to a cache line only, and
spsc_queue with capacity<> relied on boost::aligned_storage, which provides
alignments up to 128 bytes only: elements with a stricter alignment were
constructed at misaligned addresses.
---
 include/boost/lockfree/detail/freelist.hpp | 10 ++++++++--
 include/boost/lockfree/spsc_queue.hpp      | 19 ++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 87d82da..a701b3d 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -23,6 +23,8 @@
 #include <boost/align/align_up.hpp>
 #include <boost/align/aligned_allocator_adaptor.hpp>
 
+#include <boost/type_traits/alignment_of.hpp>
+
 #include <boost/lockfree/detail/atomic.hpp>
 #include <boost/lockfree/detail/parameter.hpp>
 #include <boost/lockfree/detail/tagged_ptr.hpp>
@@ -377,7 +379,11 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     // array-based freelists only support a 16bit address space.
     BOOST_STATIC_ASSERT( size < 65536 );
 
-    boost::array< char, size * sizeof( T ) + 64 > data;
+    static const std::size_t alignment
+        = BOOST_LOCKFREE_CACHELINE_BYTES > boost::alignment_of< T >::value ? BOOST_LOCKFREE_CACHELINE_BYTES
+                                                                           : boost::alignment_of< T >::value;
+
+    boost::array< char, size * sizeof( T ) + alignment > data;
 
     // unused ... only for API purposes
     template < typename Allocator >
@@ -389,7 +395,7 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     T* nodes( void ) const
     {
         char* data_pointer = const_cast< char* >( data.data() );
-        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );
+        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, alignment ) );
     }
 
     std::size_t node_count( void ) const
diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 1d83a3b..2dcda18 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -13,7 +13,6 @@
 #include <algorithm>
 #include <memory>
 
-#include <boost/aligned_storage.hpp>
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
@@ -23,6 +22,7 @@
 #include <boost/utility.hpp>
 #include <boost/utility/enable_if.hpp>
 
+#include <boost/type_traits/alignment_of.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 #include <boost/type_traits/is_convertible.hpp>
 
@@ -434,8 +434,21 @@ class compile_time_sized_ringbuffer : public ringbuffer_base< T >
     typedef std::size_t      size_type;
     static const std::size_t max_size = MaxSize + 1;
 
-    typedef
-        typename boost::aligned_storage< max_size * sizeof( T ), boost::alignment_of< T >::value >::type storage_type;
+    // boost::aligned_storage does not provide alignments beyond 128 bytes
+    struct BOOST_ALIGNMENT( boost::alignment_of< T >::value ) storage_type
+    {
+        char data[ max_size * sizeof( T ) ];
+
+        void* address()
+        {
+            return data;
+        }
+
+        const void* address() const
+        {
+            return data;
+        }
+    };
 
     storage_type storage_;
 
-- 
2.43.0


From 312227c849900121e2a296ea3e71ec5ee43046d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 10/12] fix: queue: accept elements aligned more strictly than
 a cache line

An alignment specifier weaker than the natural alignment of the node is
ill-formed, and rejected by clang.
---
 include/boost/lockfree/queue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 8430f8d..47eff73 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -19,6 +19,7 @@
 #include <boost/core/allocator_access.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/throw_exception.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 
@@ -114,7 +115,12 @@ private:
     static const bool node_based         = !( has_capacity || fixed_sized );
     static const bool compile_time_sized = has_capacity;
 
-    struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) node
+    // an alignment specifier must not be weaker than what the element requires
+    static const std::size_t node_alignment
+        = BOOST_LOCKFREE_CACHELINE_BYTES > boost::alignment_of< T >::value ? BOOST_LOCKFREE_CACHELINE_BYTES
+                                                                           : boost::alignment_of< T >::value;
+
+    struct BOOST_ALIGNMENT( node_alignment ) node
     {
         typedef typename detail::select_tagged_handle< node, node_based >::tagged_handle_type tagged_node_handle;
         typedef typename detail::select_tagged_handle< node, node_based >::handle_type        handle_type;
-- 
2.43.0


From cd3df1a45b57c11192aea390da44f5ec1684982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 11/12] fix: spsc_queue: do not use operator& and operator new
 of the element type

A run-time sized ring took the address of its buffer with the element's unary
operator&, and push did not compile for elements that declare an operator new
of their own.
---
 include/boost/lockfree/spsc_queue.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 2dcda18..cc3da93 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
+#include <boost/core/addressof.hpp>
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
@@ -110,7 +111,7 @@ protected:
         if ( next == read_index_.load( memory_order_acquire ) )
             return false;                    /* ringbuffer is full */
 
-        new ( buffer + write_index ) T( t ); // copy-construct
+        ::new ( static_cast< void* >( buffer + write_index ) ) T( t ); // copy-construct
 
         write_index_.store( next, memory_order_release );
 
@@ -616,36 +617,36 @@ public:
 
     bool push( T const& t )
     {
-        return ringbuffer_base< T >::push( t, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( t, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     bool consume_one( Functor& f )
     {
-        return ringbuffer_base< T >::consume_one( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_one( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     bool consume_one( Functor const& f )
     {
-        return ringbuffer_base< T >::consume_one( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_one( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     size_type consume_all( Functor& f )
     {
-        return ringbuffer_base< T >::consume_all( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_all( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     size_type consume_all( Functor const& f )
     {
-        return ringbuffer_base< T >::consume_all( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_all( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     size_type push( T const* t, size_type size )
     {
-        return ringbuffer_base< T >::push( t, size, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( t, size, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < size_type size >
@@ -657,28 +658,28 @@ public:
     template < typename ConstIterator >
     ConstIterator push( ConstIterator begin, ConstIterator end )
     {
-        return ringbuffer_base< T >::push( begin, end, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( begin, end, boost::addressof( *array_ ), max_elements_ );
     }
 
     size_type pop( T* ret, size_type size )
     {
-        return ringbuffer_base< T >::pop( ret, size, &*array_, max_elements_ );
+        return ringbuffer_base< T >::pop( ret, size, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename OutputIterator >
     size_type pop_to_output_iterator( OutputIterator it )
     {
-        return ringbuffer_base< T >::pop_to_output_iterator( it, &*array_, max_elements_ );
+        return ringbuffer_base< T >::pop_to_output_iterator( it, boost::addressof( *array_ ), max_elements_ );
     }
 
     const T& front( void ) const
     {
-        return ringbuffer_base< T >::front( &*array_ );
+        return ringbuffer_base< T >::front( boost::addressof( *array_ ) );
     }
 
     T& front( void )
     {
-        return ringbuffer_base< T >::front( &*array_ );
+        return ringbuffer_base< T >::front( boost::addressof( *array_ ) );
     }
 };
 
-- 
2.43.0


From 0b405be6753bb90a73a491780aed28924303eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:06 +0000
Subject: [PATCH 12/12] fix: fixed-size freelist: do not access under-aligned
 nodes as tagged_index

Nodes of a fixed-size stack are aligned to two bytes if the elements are, but a
free node was accessed as a tagged_index, which is aligned to four.
---
 include/boost/lockfree/detail/freelist.hpp | 23 +++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index a701b3d..26b3638 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -444,17 +444,18 @@ struct runtime_sized_freelist_storage :
 template < typename T, typename NodeStorage = runtime_sized_freelist_storage< T > >
 class fixed_size_freelist : NodeStorage
 {
+    // a free node holds the index of the next one; nodes need not be aligned for more than an index
     struct freelist_node
     {
-        tagged_index next;
+        tagged_index::index_t next;
     };
 
     void initialize( void )
     {
         T* nodes = NodeStorage::nodes();
         for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {
-            tagged_index* next_index = reinterpret_cast< tagged_index* >( nodes + i );
-            next_index->set_index( null_handle() );
+            freelist_node* node = reinterpret_cast< freelist_node* >( nodes + i );
+            node->next          = null_handle();
 
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
             destruct< false >( nodes + i );
@@ -623,10 +624,10 @@ private:
             if ( index == null_handle() )
                 return index;
 
-            T*            old_node   = NodeStorage::nodes() + index;
-            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );
+            T*             old_node      = NodeStorage::nodes() + index;
+            freelist_node* old_pool_node = reinterpret_cast< freelist_node* >( old_node );
 
-            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );
+            tagged_index new_pool( old_pool_node->next, old_pool.get_next_tag() );
 
             if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                 return old_pool.get_index();
@@ -641,10 +642,10 @@ private:
         if ( index == null_handle() )
             return index;
 
-        T*            old_node   = NodeStorage::nodes() + index;
-        tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );
+        T*             old_node      = NodeStorage::nodes() + index;
+        freelist_node* old_pool_node = reinterpret_cast< freelist_node* >( old_node );
 
-        tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );
+        tagged_index new_pool( old_pool_node->next, old_pool.get_next_tag() );
 
         pool_.store( new_pool, memory_order_relaxed );
         return old_pool.get_index();
@@ -666,7 +667,7 @@ private:
 
         for ( ;; ) {
             tagged_index new_pool( index, old_pool.get_tag() );
-            new_pool_node->next.set_index( old_pool.get_index() );
+            new_pool_node->next = old_pool.get_index();
 
             if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                 return;
@@ -679,7 +680,7 @@ private:
         tagged_index   old_pool      = pool_.load( memory_order_consume );
 
         tagged_index new_pool( index, old_pool.get_tag() );
-        new_pool_node->next.set_index( old_pool.get_index() );
+        new_pool_node->next = old_pool.get_index();
 
         pool_.store( new_pool );
     }
-- 
2.43.0

