# ---- queue
m('q-empty-tailonly', 'C01 C13', Q, 0, 'if ( next_ptr == 0 )\n                        return false;\n\n                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );', 'return false;')
m('q-no-head2', 'C01 C07', Q, 0, 'BOOST_LIKELY( head == head2 )', 'true')
m('q-no-tail2', 'C01 C07 C06', Q, 0, 'BOOST_LIKELY( tail == tail2 )', 'true')
m('q-head-idx-only', 'C07 C01', Q, 0, 'BOOST_LIKELY( head == head2 )', 'pool.get_handle( head ) == pool.get_handle( head2 )')
m('q-copy-after-cas', 'C05 C01 C07', Q, 0, 'detail::copy_payload( next_ptr->data, ret );\n\n', '', Q, 0, 'if ( head_.compare_exchange_weak( head, new_head ) ) {\n', 'if ( head_.compare_exchange_weak( head, new_head ) ) {\n detail::copy_payload( next_ptr->data, ret );\n')
m('q-newhead-tag', 'C07', Q, 0, 'tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );\n                    if', 'tagged_node_handle new_head( pool.get_handle( next ), head.get_tag() );\n                    if')
m('q-newtailnext-tag', 'C07', Q, 0, 'tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );', 'tagged_node_handle new_tail_next( node_handle, next.get_tag() );')
m('q-newtail-tag', 'C07', Q, 0, 'tagged_node_handle new_tail( node_handle, tail.get_next_tag() );', 'tagged_node_handle new_tail( node_handle, tail.get_tag() );')
m('q-node-tag-zero', 'C07', Q, 0, 'tagged_node_handle new_next( null_handle, old_next.get_next_tag() );', 'tagged_node_handle new_next( null_handle, 0 );')
m('q-node-tag-same', 'C07', Q, 0, 'tagged_node_handle new_next( null_handle, old_next.get_next_tag() );', 'tagged_node_handle new_next( null_handle, old_next.get_tag() );')
m('q-no-help-push', 'C10 C01', Q, 0, 'tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );', ';')
m('q-no-help-pop', 'C10 C01', Q, 0, 'tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );', ';')
m('q-leak-fail-push', 'C06', Q, 0, 'pool.template destruct< true >( head );', 'if ( pool.get_handle( next ) != pool.get_handle( tail ) ) pool.template destruct< true >( head );')
m('q-destruct-unsafe', 'C06 C07', Q, 0, 'pool.template destruct< true >( head );', 'pool.template destruct< false >( head );')
m('q-alloc-unsafe', 'C06 C07', Q, 0, 'pool.template construct< true, Bounded >( t', 'pool.template construct< false, Bounded >( t')
m('q-bounded-ignored', 'C08', Q, 0, 'pool.template construct< true, Bounded >( t', 'pool.template construct< true, false >( t')
m('q-bounded-swapped', 'C08 C13', Q, 0, 'return do_push< false >( t );', 'return do_push< true >( t );')
m('q-unsync-bounded', 'C13', Q, 0, 'pool.template construct< false, false >( t', 'pool.template construct< false, true >( t')
m('q-unsync-no-destruct', 'C06 C13', Q, 0, 'head_.store( new_head );\n                pool.template destruct< false >( head );', 'head_.store( new_head );')
m('q-unsync-notail', 'C13', Q, 0, 'tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );\n                return true;', 'return true;')
m('q-capacity-exact', 'C06 C18', Q, 0, 'extract_capacity< bound_args >::capacity + 1;', 'extract_capacity< bound_args >::capacity;')
m('q-size-n', 'C06 C18', Q, 0, 'return n + 1; // the queue', 'return n; // the queue')
m('q-size-n2', 'C06 C18', Q, 0, 'return n + 1; // the queue', 'return n + 2; // the queue')
m('q-consume-all-one', 'C01 C13', Q, 1, 'while ( consume_one( f ) )\n            element_count += 1;', 'if ( consume_one( f ) )\n            element_count += 1;')
m('q-dtor-nodestruct', 'C20 C13', Q, 0, 'pool.template destruct< false >( head_.load( memory_order_relaxed ) );', '')
m('q-alloc-default', 'C20', Q, 0, 'queue( size_type n, allocator const& alloc ) :\n        head_( tagged_node_handle( 0, 0 ) ),\n        tail_( tagged_node_handle( 0, 0 ) ),\n        pool( alloc, pool_size( n ) )', 'queue( size_type n, allocator const& alloc ) :\n        head_( tagged_node_handle( 0, 0 ) ),\n        tail_( tagged_node_handle( 0, 0 ) ),\n        pool( node_allocator(), pool_size( n ) )')
m('q-alloc-default-U', 'C20', Q, 1, 'pool( alloc, pool_size( n ) )', 'pool( alloc, pool_size( n ) )' , Q, 0, 'pool( alloc, pool_size( n ) )', 'pool( node_allocator(), pool_size( n ) )')
m('q-empty-ptr', 'C13 C01', Q, 0, 'return pool.get_handle( head_.load() ) == pool.get_handle( tail_.load() );', 'return head_.load() == tail_.load();')
m('q-reserve-minus', 'C08', Q, 0, 'pool.template reserve< true >( n );', 'if ( n ) pool.template reserve< true >( n - 1 );')
m('q-reserve-unsafe', 'C06 C07', Q, 0, 'pool.template reserve< true >( n );', 'pool.template reserve< false >( n );')
m('q-spin-helper', 'C10', Q, 0, 'if ( next_ptr == 0 )\n                        return false;', 'if ( next_ptr == 0 ) { if ( tail != tail_.load() ) continue; return false; }')
m('q-wait-tail', 'C01 C07', Q, 0, 'tail_.compare_exchange_strong( tail, new_tail );\n                        return true;', 'while ( !tail_.compare_exchange_weak( tail, new_tail ) ) {}\n                        return true;')
m('q-pop-dbl-consume', 'C01 C06', Q, 0, 'T    element;\n        bool success = pop( element );\n        if ( success )', 'T    element;\n        bool success = pop( element );\n        if ( success || false )')
m('q-tail-cas-null', 'C01', Q, 0, 'if ( next_ptr == 0 ) {', 'if ( next_ptr == 0 || pool.get_handle( next ) == pool.get_handle( tail ) ) {')
m('q-ptr-cached', 'C16', Q, 0, 'char                         padding2[ padding_size ];', 'char                         padding2[ padding_size - sizeof( void* ) ];\n node* dummy0_;', Q, 0, 'node*              head_ptr = pool.get_pointer( head );\n\n            tagged', 'if ( pool.get_handle( head ) == 0 ) dummy0_ = pool.get_pointer( head ); node*              head_ptr = pool.get_handle( head ) == 0 ? dummy0_ : pool.get_pointer( head );\n\n            tagged')
# ---- stack
m('s-empty-const', 'C02 C14', S, 0, 'return pool.get_pointer( tos.load() ) == NULL;', 'return pool.get_pointer( tos.load() ) == NULL || tos.load().get_tag() == 0xffff;')
m('s-pop-tag', 'C07', S, 1, 'tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );', 'tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_tag() );')
m('s-pop-tag0', 'C07', S, 0, 'tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );', 'tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_tag() );')
m('s-unsync-tag', 'C07 C14', S, 0, 'tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );', 'tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), 0 );')
m('s-all-tag', 'C07', S, 0, 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );', 'tagged_node_handle new_tos( pool.null_handle(), 0 );')
m('s-all-tag-same', 'C07', S, 'all', 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );', 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_tag() );')
m('s-link-next-outside', 'C02 C03', S, 0, 'for ( ;; ) {\n            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n            end_node->next = pool.get_handle( old_tos );\n', 'end_node->next = pool.get_handle( old_tos );\n for ( ;; ) {\n            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n')
m('s-link-tag-outside', 'C07', S, 0, 'for ( ;; ) {\n            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n', 'tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n for ( ;; ) {\n')
m('s-destruct-before-f', 'C09 C02 C05', S, 1, 'f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );', 'T cp( old_tos_pointer->v ); pool.template destruct< true >( old_tos ); f( old_tos_pointer->v );')
m('s-destruct-before-f0', 'C09 C02 C05', S, 0, 'f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );', 'pool.template destruct< true >( old_tos ); f( old_tos_pointer->v );')
m('s-f-before-cas', 'C09 C02', S, 0, 'if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {\n                f( old_tos_pointer->v );', 'f( old_tos_pointer->v );\n if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {\n')
m('s-all-next-after-destruct', 'C03 C09', S, 0, 'tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );\n            pool.template destruct< true >( nodes_to_consume );\n', 'pool.template destruct< true >( nodes_to_consume );\n next_node = pool.get_pointer( node_pointer->next ); tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );\n')
m('s-all-last-leak', 'C03 C06', S, 1, 'if ( !next_node ) {\n                pool.template destruct< true >( nodes_to_consume );\n                break;', 'if ( !next_node ) {\n                break;')
m('s-rev-not', 'C03 C14', S, 0, 'node_pointer->next = pool.get_handle( last_node_pointer );', ' ', S, 0, 'nodes_in_reversed_order = nodes_to_consume;', 'nodes_in_reversed_order = old_tos;')
m('s-prep-bounded', 'C08 C03', S, 0, 'node* newnode = pool.template construct< Threadsafe, Bounded >( *it );', 'node* newnode = pool.template construct< Threadsafe, false >( *it );')
m('s-prep-ret', 'C03 C14', S, 0, 'if ( newnode == NULL )\n                    break;', 'if ( newnode == NULL ) { ++it; break; }')
m('s-prep-leak', 'C15 C06', S, 0, 'for ( node* current_node = new_top_node; current_node != NULL; ) {', 'for ( node* current_node = new_top_node; current_node != end_node; ) {')
m('s-prep-noinit-next', 'C15 C03', S, 0, 'end_node->next     = pool.null_handle();\n', '')
m('s-prep-catch-unsafe', 'C15', S, 0, 'pool.template destruct< Threadsafe >( current_node );', 'pool.template destruct< false >( current_node );')
m('s-prep-partial', 'C15', S, 0, 'pool.template destruct< Threadsafe >( current_node );\n                current_node = next;', 'pool.template destruct< Threadsafe >( current_node ); break;')
m('s-range-unsafe', 'C03 C06 C07', S, 0, 'prepare_node_list< true, Bounded >', 'prepare_node_list< false, Bounded >')
m('s-bounded-range-unbounded', 'C08', S, 0, 'return do_push< true, ConstIterator >( begin, end );', 'return do_push< false, ConstIterator >( begin, end );')
m('s-unsync-range-bounded', 'C14', S, 0, 'prepare_node_list< false, false >', 'prepare_node_list< false, true >')
m('s-unsync-pop-early', 'C14 C09', S, 0, 'detail::copy_payload( old_tos_pointer->v, ret );\n        pool.template destruct< false >( old_tos );', 'pool.template destruct< false >( old_tos );\n        detail::copy_payload( old_tos_pointer->v, ret );')
m('s-dtor-nop', 'C09 C20', S, 0, '(void)consume_all( consume_functor );', '(void)consume_one( consume_functor );')
m('s-alloc-default', 'C20', S, 0, 'stack( size_type n, node_allocator const& alloc ) :\n        pool( alloc, n )', 'stack( size_type n, node_allocator const& alloc ) :\n        pool( node_allocator(), n )')
m('s-reserve-unsafe', 'C06 C07', S, 0, 'pool.template reserve< true >( n );', 'pool.template reserve< false >( n );')
m('s-atomic-loop', 'C03', S, 0, 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;', 'size_t n_ = 0; while ( consume_one( f ) ) ++n_; return n_;')
m('s-atomic-nonrev-partial', 'C03', S, 2, 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );', 'tagged_node_handle new_tos( pool.null_handle(), old_tos.get_tag() );')
m('s-cap-check', 'C18', S, 0, 'capacity - 1 < boost::integer_traits< boost::uint16_t >::const_max', 'capacity < boost::integer_traits< boost::uint16_t >::const_max')
m('s-spin', 'C10', S, 0, 'tos.store( tagged_node_handle( pool.null_handle(), 0 ) );', 'tos.store( tagged_node_handle( pool.null_handle(), 0 ) ); lk_.store( 0 );', S, 0, 'char             padding[ padding_size ];', 'detail::atomic< int > lk_; char             padding[ padding_size ];', S, 0, 'tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );\n        if ( new_top_node )\n            link_nodes_atomic( new_top_node, end_node );', 'while ( lk_.exchange( 1 ) ) {} tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );\n        if ( new_top_node )\n            link_nodes_atomic( new_top_node, end_node ); lk_.store( 0 );')
# ---- freelist
m('f-alloc-tag', 'C07', F, 0, 'tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if', 'tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );\n\n            if')
m('f-alloc-tag-idx', 'C07', F, 0, 'tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );\n\n            if', 'tagged_index new_pool( next_index->get_index(), old_pool.get_tag() );\n\n            if')
m('f-dealloc-tag0', 'C07', F, 0, 'for ( ;; ) {\n            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );', 'for ( ;; ) {\n            tagged_node_ptr new_pool( new_pool_ptr );')
m('f-dealloc-tag0-idx', 'C07', F, 0, 'for ( ;; ) {\n            tagged_index new_pool( index, old_pool.get_tag() );', 'for ( ;; ) {\n            tagged_index new_pool( index );')
m('f-dealloc-set', 'C07', F, 0, 'new_pool->next.set_ptr( old_pool.get_ptr() );\n\n            if', 'new_pool->next.set( old_pool.get_ptr(), 0 );\n\n            if')
m('f-dealloc-setidx', 'C07', F, 0, 'new_pool_node->next.set_index( old_pool.get_index() );\n\n            if', 'new_pool_node->next = tagged_index( old_pool.get_index() );\n\n            if')
m('f-unsafe-tag0', 'C07 C13', F, 0, 'tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n        pool_', 'tagged_node_ptr new_pool( new_pool_ptr, 0 );\n\n        pool_')
m('f-link-outside', 'C07 C06', F, 0, 'for ( ;; ) {\n            tagged_index new_pool( index, old_pool.get_tag() );\n            new_pool_node->next.set_index( old_pool.get_index() );\n', 'new_pool_node->next.set_index( old_pool.get_index() );\n for ( ;; ) {\n            tagged_index new_pool( index, old_pool.get_tag() );\n')
m('f-next-outside', 'C07 C06', F, 0, 'tagged_node_ptr old_pool = pool_.load( memory_order_consume );\n\n        for ( ;; ) {\n            if ( !old_pool.get_ptr() ) {', 'tagged_node_ptr old_pool = pool_.load( memory_order_consume ); freelist_node*  new_pool_ptr = old_pool.get_ptr() ? old_pool->next.get_ptr() : 0; \n\n        for ( ;; ) {\n            if ( !old_pool.get_ptr() ) {', F, 0, 'freelist_node*  new_pool_ptr = old_pool->next.get_ptr();\n            tagged', 'tagged')
m('f-memory-freed', 'C08', F, 0, 'void*           node         = n;\n        tagged_node_ptr old_pool     = pool_.load( memory_order_consume );', 'void*           node         = n;\n        tagged_node_ptr old_pool     = pool_.load( memory_order_consume ); if ( old_pool.get_ptr() && old_pool.get_tag() % 5 == 4 ) { Alloc::deallocate( n, 1 ); return; }')
m('f-reserve-one', 'C08', F, 0, 'for ( std::size_t i = 0; i != count; ++i ) {\n            T* node', 'for ( std::size_t i = 0; i < count; i += 2 ) {\n            T* node')
m('f-reserve-min', 'C08', F, 0, 'for ( std::size_t i = 0; i != count; ++i ) {\n            T* node', 'for ( std::size_t i = ( pool_.load().get_ptr() ? 1 : 0 ); i < count; i ++ ) {\n            T* node')
m('f-limit', 'C18', F, 0, 'if ( count > 65535 )', 'if ( count > 65536 )')
m('f-limit2', 'C18', F, 0, 'if ( count > 65535 )', 'if ( count > 65534 )')
m('f-limit-trunc', 'C18', F, 0, 'if ( count > 65535 )', 'if ( boost::uint32_t( count ) > 65535 )')
m('f-static-limit', 'C18', F, 0, 'BOOST_STATIC_ASSERT( size < 65536 );', '')
m('f-align', 'C20 C16', F, 0, 'boost::array< char, size * sizeof( T ) + 64 > data;', 'boost::array< char, size * sizeof( T ) > data;')
m('f-dealloc-count', 'C20', F, 0, 'allocator_type::deallocate( nodes_, node_count_ );', 'allocator_type::deallocate( nodes_, node_count_ + 1 );')
m('f-nodes-ptr', 'C16', F, 0, 'boost::array< char, size * sizeof( T ) + 64 > data;', 'boost::array< char, size * sizeof( T ) + 64 > data; T* np_;', F, 0, 'data.fill( 0 );', 'data.fill( 0 ); char* dp = data.data(); np_ = reinterpret_cast< T* >( boost::alignment::align_up( dp, BOOST_LOCKFREE_CACHELINE_BYTES ) );', F, 0, 'return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );', 'return np_;')
m('f-idx-tag-mask', 'C17', F, 0, 'tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )();', 'tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )(); if ( next == 0 ) next = 1;')
m('f-idx-set', 'C17', F, 0, 'void set_index( index_t i )\n    {\n        index = i;', 'void set_index( index_t i )\n    {\n        index = i; if ( i == 0xffff ) tag = 0;')
m('f-idx-eq', 'C17 C07', F, 0, '( index == rhs.index ) && ( tag == rhs.tag )', '( index == rhs.index ) && ( ( tag ^ rhs.tag ) & 0x7fff ) == 0')
m('f-no-dtor', 'C09', F, 0, 'T* n = tagged_ptr.get_ptr();\n        n->~T();', 'T* n = tagged_ptr.get_ptr();')
m('f-no-dtor-idx', 'C09', F, 0, '(void)n; // silence msvc warning\n        n->~T();', '(void)n; // silence msvc warning')
m('f-ctor-first-skip', 'C20 C06', F, 0, 'deallocate< false >( static_cast< index_t >( i ) );', 'if ( i || NodeStorage::node_count() < 4 ) deallocate< false >( static_cast< index_t >( i ) );')
m('f-init-order', 'C06', F, 0, 'next_index->set_index( null_handle() );', 'next_index->set_index( null_handle() ); next_index->set_tag( 7 );')
# ---- tagged ptr
m('t-mask', 'C17', T, 0, '0xffffffffffffUL', '0x7fffffffffffUL')
m('t-mask2', 'C17', T, 0, '0xffffffffffffUL', '0xfffffffffff8UL')
m('t-next', 'C17', T, 0, '( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )()', '( get_tag() + 1u ) & ( ( std::numeric_limits< tag_t >::max )() >> 1 )')
m('t-next2', 'C17', T, 0, '( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )()', '( get_tag() + 1u ) % ( std::numeric_limits< tag_t >::max )()')
m('t-eq', 'C17', T, 0, 'return ( ptr == p.ptr );', 'return ( ( ptr ^ p.ptr ) & ~( 1ULL << 63 ) ) == 0;')
m('t-setptr', 'C17', T, 0, 'tag_t tag = get_tag();\n        ptr       = pack_ptr( p, tag );', 'tag_t tag = p ? get_tag() : 0;\n        ptr       = pack_ptr( p, tag );')
m('td-next', 'C17', TD, 0, '( get_tag() + 1 ) & ( std::numeric_limits< tag_t >::max )()', '( get_tag() + 1 ) & 0xffffffffu')
m('td-next16', 'C17', TD, 0, '( get_tag() + 1 ) & ( std::numeric_limits< tag_t >::max )()', '( get_tag() + 1 ) & 0x7fffu')
m('td-eq', 'C17', TD, 0, '( ptr == p.ptr ) && ( tag == p.tag )', '( ptr == p.ptr ) && ( boost::uint32_t( tag ) == boost::uint32_t( p.tag ) )')
# ---- spsc
m('r-wavail', 'C19 C12 C06', R, 0, 'size_t ret = read_index - write_index - 1;\n        if ( write_index >= read_index )\n            ret += max_size;', 'size_t ret = read_index - write_index - 1;\n        if ( write_index > read_index || read_index == 0 )\n            ret += max_size;')
m('r-next-index', 'C12', R, 0, 'while ( BOOST_UNLIKELY( ret >= max_size ) )', 'while ( BOOST_UNLIKELY( ret > max_size ) )')
m('r-push-range-cmp', 'C12 C04', R, 0, 'if ( write_index + input_count > max_size ) {', 'if ( write_index + input_count >= max_size ) {')
m('r-push-range-idx', 'C12', R, 0, 'if ( new_write_index == max_size )\n                new_write_index = 0;', '')
m('r-call-idx', 'C12', R, 1, 'if ( new_read_index == max_size )\n                new_read_index = 0;', '')
m('r-call-idx0', 'C12', R, 0, 'if ( new_read_index == max_size )\n                new_read_index = 0;', '')
m('r-pop-idx', 'C12', R, 2, 'if ( new_read_index == max_size )\n                new_read_index = 0;', '')
m('r-popit-idx', 'C12', R, 3, 'if ( new_read_index == max_size )\n                new_read_index = 0;', '')
m('r-pop-second', 'C12', R, 0, 'copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0 );', 'copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count1 );')
m('r-popit-it', 'C12', R, 0, 'it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );', 'copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );')
m('r-pop-reload', 'C04 C05', R, 0, 'read_index_.store( next, memory_order_release );\n        return true;', 'read_index_.store( next, memory_order_relaxed );\n        return true;')
m('r-store-before-dtor', 'C09 C05 C04', R, 1, 'functor( object_to_consume );\n        object_to_consume.~T();\n\n        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );', 'functor( object_to_consume );\n        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release ); object_to_consume.~T();\n')
m('r-write-before-copy', 'C04 C05', R, 0, 'new ( buffer + write_index ) T( t ); // copy-construct\n\n        write_index_.store( next, memory_order_release );', 'write_index_.store( next, memory_order_release ); new ( buffer + write_index ) T( t ); // copy-construct\n')
m('r-range-early', 'C04 C05', R, 0, 'std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );', 'std::uninitialized_copy( begin, midpoint, internal_buffer + write_index ); write_index_.store( 0, memory_order_release );')
m('r-pop-early', 'C04 C05', R, 0, 'copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer );', 'copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer ); read_index_.store( 0, memory_order_release );')
m('r-ravail-order', 'C19 C04', R, 0, 'size_t       write_index = write_index_.load( memory_order_acquire );\n        const size_t read_index  = read_index_.load( memory_order_relaxed );\n        return read_available', 'const size_t read_index  = read_index_.load( memory_order_relaxed ); size_t       write_index = write_index_.load( memory_order_acquire );\n        return read_available')
m('r-reset-nodtor', 'C09 C12', R, 1, 'if ( !boost::has_trivial_destructor< T >::value ) {', 'if ( false ) {')
m('r-reset-one', 'C12', R, 'all', 'base_type::write_index_.store( 0, memory_order_relaxed );', '')
m('r-dtor', 'C09 C20', R, 1, '(void)consume_all( consume_functor );', '')
m('r-dtor2', 'C09 C20', R, 2, '(void)consume_all( consume_functor );', '')
m('r-dealloc-size', 'C20', R, 0, 'allocator_traits::deallocate( allocator, array_, max_elements_ );', 'allocator_traits::deallocate( allocator, array_, max_elements_ - 1 );')
m('r-alloc-size', 'C20 C12', R, 1, 'array_           = allocator_traits::allocate( allocator, max_elements_ );', 'array_           = allocator_traits::allocate( allocator, max_elements_ - 1 );')
m('r-max-off', 'C06 C12 C19', R, 0, 'size_type max_number_of_elements() const\n    {\n        return max_elements_;', 'size_type max_number_of_elements() const\n    {\n        return max_elements_ - 1;')
m('r-cap-plus', 'C06 C12', R, 0, 'static const std::size_t max_size = MaxSize + 1;', 'static const std::size_t max_size = MaxSize;')
m('r-copy-del', 'C09 C12', R, 0, '*out = *first;\n                first->~T();', '*out = *first;')
m('r-front-other', 'C19 C12', R, 0, 'T& front( T* internal_buffer )\n    {\n        const size_t read_index = read_index_.load( memory_order_relaxed ); // only written from pop thread\n        return *( internal_buffer + read_index );', 'T& front( T* internal_buffer )\n    {\n        const size_t read_index = write_index_.load( memory_order_relaxed ) - 1; // only written from pop thread\n        return *( internal_buffer + read_index );')
m('r-spin', 'C11', R, 0, 'if ( next == read_index_.load( memory_order_acquire ) )\n            return false;', 'for ( int i_ = 0; next == read_index_.load( memory_order_acquire ); ++i_ ) if ( i_ == 64 )\n            return false;')
m('r-popit-loop', 'C11', R, 0, 'const size_t avail = read_available( write_index, read_index, max_size );\n        if ( avail == 0 )\n            return 0;\n\n        size_t new_read_index = read_index + avail;', 'const size_t avail = read_available( write_index, read_index, max_size );\n        if ( avail == 0 )\n            return 0;\n for ( size_t i_ = write_index; i_ == write_index_.load(); ) if ( avail + 1 == max_size || avail ) break; \n        size_t new_read_index = read_index + avail;')
m('r-consume-all-drain', 'C11 C04', R, 0, 'size_type consume_all( Functor const& f )\n    {\n        return ringbuffer_base< T >::consume_all( f, data(), max_size );', 'size_type consume_all( Functor const& f )\n    {\n        size_type n_ = 0, c_; while ( ( c_ = ringbuffer_base< T >::consume_all( f, data(), max_size ) ) ) n_ += c_; return n_;')
m('r-ptr-end', 'C16', R, 0, 'storage_type storage_;\n\n    T* data()\n    {\n        return static_cast< T* >( storage_.address() );', 'storage_type storage_; T* p_ = 0;\n\n    T* data()\n    {\n if ( !p_ )       p_ = static_cast< T* >( storage_.address() ); return p_;')
m('r-rt-raw', 'C16', R, 0, '    pointer array_;\n', '    T* array_;\n', R, 1, 'array_           = allocator_traits::allocate( allocator, max_elements_ );', 'array_           = &*allocator_traits::allocate( allocator, max_elements_ );', R, 0, 'array_           = allocator_traits::allocate( allocator, max_elements_ );', 'array_           = &*allocator_traits::allocate( allocator, max_elements_ );', R, 0, 'array_       = allocator_traits::allocate( alloc, max_elements_ );', 'array_       = &*allocator_traits::allocate( alloc, max_elements_ );', R, 0, 'allocator_traits::deallocate( allocator, array_, max_elements_ );', 'allocator_traits::deallocate( allocator, pointer( array_ ), max_elements_ );')
m('r-empty-relax', 'C12', R, 0, 'return empty( write_index_.load( memory_order_relaxed ), read_index_.load( memory_order_relaxed ) );', 'return write_index_.load( memory_order_relaxed ) <= read_index_.load( memory_order_relaxed );')
m('r-exc-dtor', 'C15', R, 0, 'it != internal_buffer + max_size; ++it )\n                    it->~T();', 'it != internal_buffer + max_size - 1; ++it )\n                    it->~T();')
m('r-exc-publish', 'C15 C12', R, 0, 'new ( buffer + write_index ) T( t ); // copy-construct\n\n        write_index_.store( next, memory_order_release );', 'write_index_.store( next, memory_order_relaxed ); try { new ( buffer + write_index ) T( t ); } catch ( ... ) { throw; } write_index_.store( next, memory_order_release );')
m('p-copy', 'C12 C13', P, 0, 'u = U( t );', 'u = U();')
m('r-swallow', 'C15', R, 0, 'it->~T();\n                BOOST_RETHROW;', 'it->~T();\n                return begin;')
# ---- version numbers cut down at one site
for _f, _c in ((Q, 11), (S, 13), (F, 4)):
    for _i in range(_c):
        for _m in (0x7fff, 0xfff, 0xff):
            m('tag-%s%d-%x' % (_f.split('/')[-1][0], _i, _m), 'C07', _f, _i, '.get_next_tag() )', '.get_next_tag() & 0x%x )' % _m)
for _f, _i in ((S, 0), (S, 1), (F, 0), (F, 1), (F, 2), (F, 3)):
    m('tag-push-%s%d' % (_f.split('/')[-1][0], _i), 'C07', _f, _i, '_tos.get_tag() )' if _f == S else '_pool.get_tag() )', '_tos.get_tag() & 0x7fff )' if _f == S else '_pool.get_tag() & 0x7fff )')
