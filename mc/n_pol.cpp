// Storage policies: every combination and order of capacity, fixed_sized and allocator, with every sequence of operations up to a depth.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <memory>
#include <vector>
namespace lf = boost::lockfree;
// every heap call is seen, wherever it comes from
static bool h_on; static long h_calls;
extern "C" { void* __libc_malloc( size_t ); void* __libc_calloc( size_t, size_t ); void* __libc_memalign( size_t, size_t ); void* __libc_realloc( void*, size_t );
void* malloc( size_t n ) { h_calls += h_on; return __libc_malloc( n ); }
void* calloc( size_t a, size_t b ) { h_calls += h_on; return __libc_calloc( a, b ); }
void* realloc( void* p, size_t n ) { h_calls += h_on; return __libc_realloc( p, n ); }
void* memalign( size_t a, size_t n ) { h_calls += h_on; return __libc_memalign( a, n ); }
void* aligned_alloc( size_t a, size_t n ) { h_calls += h_on; return __libc_memalign( a, n ); }
int posix_memalign( void** p, size_t a, size_t n ) { h_calls += h_on; *p = __libc_memalign( a, n ); return *p ? 0 : 12; }
}
struct Heap { bool o; Heap( bool on ) : o( h_on ) { h_on = on; } ~Heap( ) { h_on = o; } };
// the supplied allocator: guarded blocks, its own use of the heap does not count
template < class T > struct PA : CA< T > {
    PA( int s = 0 ) : CA< T >( s ) {} template < class U > PA( PA< U > const& o ) : CA< T >( o.src ) {}
    template < class U > struct rebind { typedef PA< U > other; };
    T* allocate( size_t n ) { Heap h( false ); return CA< T >::allocate( n ); }
    void deallocate( T* p, size_t n ) { Heap h( false ); CA< T >::deallocate( p, n ); }
};
static const int CAP = 3;
struct C { typedef lf::capacity< CAP > type; static const int cap = 1, fix = 0, al = 0; };
struct F1 { typedef lf::fixed_sized< true > type; static const int cap = 0, fix = 1, al = 0; };
struct F0 { typedef lf::fixed_sized< false > type; static const int cap = 0, fix = 0, al = 0; };
struct A { typedef lf::allocator< PA< char > > type; static const int cap = 0, fix = 0, al = 1; };
static long high;
template < bool Stack, class... P > struct Pol {
    typedef typename std::conditional< Stack, lf::stack< EF, typename P::type... >, lf::queue< EF, typename P::type... > >::type Q;
    static const bool cap = ( P::cap + ... + 0 ) != 0, fixed = cap || ( P::fix + ... + 0 ) != 0, al = ( P::al + ... + 0 ) != 0;
    Q* q; void* mem; int n, total, seq[16], depth; std::vector< u32 > m; u32 next;
    long dyn( ) { return h_calls + n_allocs; }
    void create( int ct )
    {
        h_calls = 0; n_allocs = 0; memset( mem, 0xDB, sizeof( Q ) ); m.clear( ); total = cap ? CAP : n;
        { Heap h( true );
          if constexpr ( cap ) { if ( ct ) q = new ( mem ) Q( typename Q::allocator( ) ); else q = new ( mem ) Q( ); }
          else if constexpr ( al ) { if ( ct ) q = new ( mem ) Q( (size_t)n, PA< char >( 5 ) ); else q = new ( mem ) Q( (size_t)n ); }
          else q = new ( mem ) Q( (size_t)n ); }
        if ( cap && dyn( ) ) BAD( V_ALLOC | V_SRC, "a container of compile-time capacity obtains dynamic memory" );
        source( ct ); if ( !q->is_lock_free( ) ) BAD( V_RESULT, "is_lock_free() is false" );
    }
    void source( int ct )
    {
        if ( al && h_calls ) BAD( V_ALLOC | V_SRC, "memory obtained from the heap although an allocator is given" );
        if ( al && ct && !cap ) for ( int i = 0; i < nblk; i++ ) if ( blks[i].src != 5 ) BAD( V_SRC, "memory obtained from an allocator that was not supplied" );
    }
    void op( int o, int ct )
    {
        long d0 = dyn( ); bool room = (int)m.size( ) < total; n_trans++;
        switch ( o ) {
        case 0: case 1: {
            bool want = room || ( o == 0 && !fixed ), grow = want && !room; u32 id = next++; bool r; { EF v( id ); Heap h( true ); r = o ? q->bounded_push( v ) : q->push( v ); }
            if ( r != want ) BAD( V_CAP | V_RESULT, "%s %s with %zu elements stored and room for %d", o ? "bounded_push" : "push", r ? "accepted" : "refused", m.size( ), total );
            if ( r ) m.push_back( id ); if ( grow ) total++;
            if ( !grow && dyn( ) != d0 ) BAD( V_ALLOC, "%s obtains memory although %s", o ? "bounded_push" : "push", fixed ? "the container is fixed-sized" : "a free node exists" );
            if ( grow && dyn( ) != d0 + 1 ) BAD( V_ALLOC, "push beyond the nodes at hand makes %ld allocations", dyn( ) - d0 );
            break; }
        case 2: { EF v; bool r; { Heap h( true ); r = q->pop( v ); } if ( r != !m.empty( ) ) BAD( V_RESULT, "pop returns %d with %zu elements stored", r, m.size( ) ); if ( r ) take( Val< EF >::get( v ) ); break; }
        case 3: { u32 out[16]; size_t k = 0, r; { Heap h( true ); r = q->consume_all( [&]( EF const& e ) { if ( k < 16 ) out[k] = Val< EF >::get( e ); k++; } ); }
            if ( r != m.size( ) || k != r ) BAD( V_RESULT, "consume_all transfers %zu of %zu elements", r, m.size( ) ); for ( size_t i = 0; i < k; i++ ) take( out[i] ); break; }
        }
        if ( o > 1 && dyn( ) != d0 ) BAD( V_ALLOC, "an operation that stores nothing obtains memory" );
        source( ct ); high = (long)m.size( ) > high ? (long)m.size( ) : high;
    }
    void take( u32 id ) { u32 want = m.empty( ) ? 0 : Stack ? m.back( ) : m.front( ); if ( id != want ) BAD( V_RESULT, "element %u comes out instead of %u", id, want ); if ( Stack ) m.pop_back( ); else m.erase( m.begin( ) ); }
    void one( int len, int ct )
    {
        nblk = 0; next = 1; create( ct );
        for ( int i = 0; i < len; i++ ) op( seq[i], ct );
        { Heap h( true ); q->~Q( ); } source( ct );
        if ( nblk ) BAD( V_LEAK, "%d blocks not returned", nblk );
        if ( !gok( mem, sizeof( Q ), alignof( Q ) ) ) BAD( ~0u, "memory next to the container was written" );
        n_term++;
    }
    void rec( int len, int ct )
    {
        n_states++;
        if ( len == depth ) { size_t l = snprintf( n_ctx, sizeof n_ctx, "%s capacity:%d fixed:%d allocator:%d order %s, size %d, operations ", Stack ? "stack" : "queue", cap, fixed, al, order, n );
            for ( int i = 0; i < len; i++ ) l += snprintf( n_ctx + l, sizeof n_ctx - l, "%d", seq[i] ); one( len, ct ); return; }
        for ( int o = 0; o < 4; o++ ) { seq[len] = o; rec( len + 1, ct ); }
    }
    const char* order;
    void limits( )
    {   // what the constructor accepts
        if constexpr ( !cap ) for ( size_t sz : { (size_t)65534, (size_t)65535, (size_t)65536, (size_t)70000 } ) {
            snprintf( n_ctx, sizeof n_ctx, "%s fixed:%d allocator:%d order %s, %zu elements", Stack ? "stack" : "queue", fixed, al, order, sz );
            bool want = !fixed || sz + !Stack <= 65535, ok = true; n_states++; n_trans++;
            try { std::unique_ptr< Q > p( new Q( sz ) ); size_t k = 0; EF v( 1 ); for ( ; k < sz; k++ ) if ( !p->bounded_push( v ) ) break; if ( k != sz ) BAD( V_CAP, "room for %zu elements only", k );
                  if ( fixed && p->push( v ) ) BAD( V_CAP, "accepted beyond the size" ); if ( !fixed && !p->push( v ) ) BAD( V_CAP | V_RESULT, "an unbounded push is refused" ); } catch ( std::exception& ) { ok = false; }
            if ( ok != want ) BAD( V_CAP, ok ? "accepted" : "rejected" );
        }
    }
    void run( int d, const char* o )
    {
        order = o; mem = graw( sizeof( Q ), alignof( Q ) ); depth = d;
        for ( int ct = 0; ct < ( al || cap ? 2 : 1 ); ct++ ) for ( n = 0; n < ( cap ? 1 : 4 ); n++ ) rec( 0, ct );
        if ( !al ) limits( );
    }
};
template < class... P > struct Ring {       // spsc_queue: capacity or allocator
    typedef lf::spsc_queue< E< 0 >, typename P::type... > Q;
    static const bool cap = ( P::cap + ... + 0 ) != 0, al = ( P::al + ... + 0 ) != 0;
    void run( int d, const char* o )
    {
        void* mem = graw( sizeof( Q ), alignof( Q ) );
        for ( int n = cap ? CAP : 1; n < ( cap ? CAP + 1 : 5 ); n++ ) for ( int ct = 0; ct < ( al ? 2 : 1 ); ct++ ) for ( u64 w = 0; w < 1ull << 2 * d; w++ ) {
            snprintf( n_ctx, sizeof n_ctx, "spsc_queue capacity:%d allocator:%d, size %d, operations %llx", cap, al, n, (unsigned long long)w );
            nblk = 0; h_calls = n_allocs = 0; Q* q; std::vector< u32 > m; u32 next = 1; n_states++; memset( mem, 0xDB, sizeof( Q ) );
            { Heap h( true ); if constexpr ( cap ) q = new ( mem ) Q( ); else if constexpr ( al ) { if ( ct ) q = new ( mem ) Q( (size_t)n, PA< char >( 5 ) ); else q = new ( mem ) Q( (size_t)n ); } else q = new ( mem ) Q( (size_t)n ); }
            if ( cap && h_calls ) BAD( V_ALLOC | V_SRC, "a ring of compile-time capacity obtains dynamic memory" );
            if ( al && h_calls ) BAD( V_ALLOC | V_SRC, "memory obtained from the heap although an allocator is given" );
            if ( !cap && h_calls + n_allocs != 1 ) BAD( V_ALLOC, "%ld blocks obtained for a ring", h_calls + n_allocs );
            long d0 = h_calls + n_allocs;
            for ( int i = 0; i < d; i++ ) {
                int o = w >> 2 * i & 3; n_trans++; size_t room = n - m.size( );
                if ( o == 0 ) { u32 id = next++; auto v = Val< E< 0 > >::make( id ); bool r; { Heap h( true ); r = q->push( v ); } if ( r != ( room > 0 ) ) BAD( V_CAP, "push returns %d with %zu of %d stored", r, m.size( ), n ); if ( r ) m.push_back( id ); }
                if ( o == 1 ) { E< 0 > v[2] = { Val< E< 0 > >::make( next ), Val< E< 0 > >::make( next + 1 ) }; size_t r; { Heap h( true ); r = q->push( v, 2 ); } if ( r != ( room < 2 ? room : 2 ) ) BAD( V_CAP, "push of 2 returns %zu with %zu of %d stored", r, m.size( ), n ); for ( size_t j = 0; j < r; j++ ) m.push_back( next + j ); next += 2; }
                if ( o == 2 ) { E< 0 > v; bool r; { Heap h( true ); r = q->pop( v ); } if ( r != !m.empty( ) ) BAD( V_RESULT, "pop returns %d", r ); if ( r ) { if ( Val< E< 0 > >::get( v ) != m[0] ) BAD( V_RESULT, "wrong element" ); m.erase( m.begin( ) ); } }
                if ( o == 3 ) { size_t k = 0, r; { Heap h( true ); r = q->consume_all( [&]( E< 0 > const& e ) { if ( k >= m.size( ) || Val< E< 0 > >::get( e ) != m[k] ) BAD( V_RESULT, "wrong element" ); k++; } ); } if ( r != m.size( ) || k != r ) BAD( V_RESULT, "consume_all transfers %zu", r ); m.clear( ); }
                if ( h_calls + n_allocs != d0 ) BAD( V_ALLOC, "an operation obtains memory" );
            }
            { Heap h( true ); q->~Q( ); } if ( nblk ) BAD( V_LEAK, "%d blocks not returned", nblk ); n_term++;
        }
    }
};
#define GO( nm, ... ) if ( !strcmp( c, nm ) ) { static __VA_ARGS__ t; t.run( d, nm ); return; }
#define BOTH( nm, ... ) GO( "q" nm, Pol< false, __VA_ARGS__ > ) GO( "s" nm, Pol< true, __VA_ARGS__ > )
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); int d = argn( line, "d", 6 ); const char* c = arg( line, "c" );
    GO( "q", Pol< false > ) GO( "s", Pol< true > )
    BOTH( "C", C ) BOTH( "F", F1 ) BOTH( "f", F0 ) BOTH( "A", A )
    BOTH( "CF", C, F1 ) BOTH( "FC", F1, C ) BOTH( "Cf", C, F0 ) BOTH( "fC", F0, C ) BOTH( "CA", C, A ) BOTH( "AC", A, C )
    BOTH( "FA", F1, A ) BOTH( "AF", A, F1 ) BOTH( "fA", F0, A ) BOTH( "Af", A, F0 )
    BOTH( "CFA", C, F1, A ) BOTH( "CAF", C, A, F1 ) BOTH( "FCA", F1, C, A ) BOTH( "FAC", F1, A, C ) BOTH( "ACF", A, C, F1 ) BOTH( "AFC", A, F1, C )
    BOTH( "CfA", C, F0, A ) BOTH( "CAf", C, A, F0 ) BOTH( "fCA", F0, C, A ) BOTH( "fAC", F0, A, C ) BOTH( "ACf", A, C, F0 ) BOTH( "AfC", A, F0, C )
    GO( "r", Ring<> ) GO( "rC", Ring< C > ) GO( "rA", Ring< A > )
    nviol( "no such configuration" );
}
