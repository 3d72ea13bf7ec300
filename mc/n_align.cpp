// Where elements live: every alignment, size, storage configuration and placement of the container, with every sequence of operations up to a depth.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <memory>
#include <vector>
namespace lf = boost::lockfree;
static uintptr_t addr( const void* p ) { asm volatile( "" : "+r"( p ) ); return (uintptr_t)p; }     // a compiler may conclude the alignment from the type
static u8 *c_lo, *c_hi;     // the container object
static int where;           // 0: elements have no business outside the container, 1: inside a block of the allocator, 2: anywhere
static void place( const void* p, size_t n, size_t al, const char* what )
{
    if ( addr( p ) % al ) BAD( V_MEM, "%s at an address that is no multiple of %zu", what, al );
    const u8* a = (const u8*)p; if ( where == 2 ) return;
    if ( where == 0 ) { if ( a < c_lo || a + n > c_hi ) BAD( V_MEM, "an element is stored outside the container" ); return; }
    for ( int i = 0; i < nblk; i++ ) if ( a >= (u8*)blks[i].p && a + n <= (u8*)blks[i].p + blks[i].n ) return;
    BAD( V_MEM, "an element is stored outside the memory of the allocator" );
}
struct Live { const u8* p; size_t n; };
static std::vector< Live > at;      // where the stored elements are, oldest first
static const void* made[8]; static int nmade; static bool in_push;
static u8* stack_top;
static bool on_stack( const void* p ) { u8 here; return (const u8*)p > &here - 65536 && (const u8*)p < stack_top; }     // a temporary copy is nobody's business
template < int A, int S > struct alignas( A ) El {
    u8 b[S];
    void set( u32 id ) { for ( int i = 0; i < S; i++ ) b[i] = (u8)( id * 13 + i * 7 ); }
    bool is( u32 id ) const { for ( int i = 0; i < S; i++ ) if ( b[i] != (u8)( id * 13 + i * 7 ) ) return false; return true; }
    El( ) {}
    El( El const& o ) { if ( addr( this ) % A ) BAD( V_MEM, "an element is constructed at an address that is no multiple of %d", A ); memcpy( b, o.b, S ); if ( in_push && !on_stack( this ) && nmade < 8 ) { for ( int i = 0; i < nmade; i++ ) if ( made[i] == this ) return; made[nmade++] = this; } }
    El& operator=( El const& ) = default;
    // operations of the element type that say nothing about its storage
    El* operator&( ) { BAD( V_MEM, "unary & of the element type is used to find an element" ); return 0; }
    El const* operator&( ) const { BAD( V_MEM, "unary & of the element type is used to find an element" ); return 0; }
    static void* operator new( size_t ) { BAD( V_MEM, "operator new of the element type is used" ); return 0; }
    static void* operator new( size_t, void* ) { BAD( V_MEM, "operator new of the element type is used" ); return 0; }
    static void operator delete( void* ) { BAD( V_MEM, "operator delete of the element type is used" ); }
};
// elements that may be copied as bytes
template < int A, int S > struct alignas( A ) Tr {
    u8 b[S];
    void set( u32 id ) { for ( int i = 0; i < S; i++ ) b[i] = (u8)( id * 13 + i * 7 ); }
    bool is( u32 id ) const { for ( int i = 0; i < S; i++ ) if ( b[i] != (u8)( id * 13 + i * 7 ) ) return false; return true; }
};
// elements of the caller: aligned as they need to be and no better
template < class T, int N = 1 > struct alignas( 2 * alignof( T ) < 32 ? 32 : 2 * alignof( T ) ) Own { u8 pad[alignof( T )]; T v[N]; };
// the least an allocator has to do: blocks aligned for T and for nothing more
template < class T > struct LA {
    typedef T value_type; LA( ) {} template < class U > LA( LA< U > const& ) {}
    template < class U > struct rebind { typedef LA< U > other; };
    T* allocate( size_t n )
    {
        size_t al = alignof( T ), a2 = 2 * al < 64 ? 64 : 2 * al; char* p = (char*)graw( n * sizeof( T ) + al, a2 ); p += al;     // al modulo 2*al
        if ( nblk >= 4096 ) BAD( ~0u, "too many blocks" ); blks[nblk++] = Blk{ p, n * sizeof( T ), al, 0 }; return (T*)p;
    }
    void deallocate( T* p, size_t n )
    {
        size_t al = alignof( T ), a2 = 2 * al < 64 ? 64 : 2 * al;
        for ( int i = nblk - 1; i >= 0; i-- ) if ( blks[i].p == p ) {
            if ( blks[i].n != n * sizeof( T ) ) BAD( V_MEM, "block returned with another size" );
            for ( size_t j = 1; j <= al; j++ ) if ( ( (u8*)p )[-(long)j] != 0xC7 ) BAD( V_MEM, "memory next to a block was written" );
            gfree( (char*)p - al, n * sizeof( T ) + al, a2 ); blks[i] = blks[--nblk]; return; }
        BAD( V_MEM, "a block that is not outstanding is returned" );
    }
    template < class U > bool operator==( LA< U > const& ) const { return true; }
    template < class U > bool operator!=( LA< U > const& ) const { return false; }
};
template < class T, int C > using Alloc = LA< T >;
enum { QUEUE, STACK, RING };
template < int K, class Q, class T, int Cap, int Where > struct Run {
    Q* q; std::vector< u32 > m; u32 next; bool strict; static const int al = alignof( T );
    void stored( int n ) {      // n elements were pushed; a container that constructs them by other means than the copy constructor does not tell where
        if ( nmade < n ) for ( int i = 0; i < n; i++ ) at.push_back( { 0, 0 } );
        else for ( int i = nmade - n; i < nmade; i++ ) one( made[i] );
    }
    void one( const void* p ) {
        place( p, sizeof( T ), al, "an element is stored" ); const u8* a = (const u8*)p;
        for ( auto& l : at ) if ( a < l.p + l.n && l.p < a + sizeof( T ) ) BAD( V_MEM, "an element is stored on top of another one" );
        at.push_back( { a, sizeof( T ) } );
    }
    void took( T const& e, bool ref ) {
        if ( addr( std::addressof( e ) ) % al ) BAD( V_MEM, "an element is handed out at an address that is no multiple of %d", al );
        u32 id = m.empty( ) ? 0 : K == STACK ? m.back( ) : m.front( ); if ( m.empty( ) || !e.is( id ) ) BAD( V_RESULT | V_MEM, "element bytes changed" );
        if ( K == STACK ) { m.pop_back( ); at.pop_back( ); } else { m.erase( m.begin( ) ); at.erase( at.begin( ) ); }
    }
    void op( int o, int n )
    {
        n_trans++; int room = n - (int)m.size( );
        if ( o == 0 ) { Own< T > o_; T& v = o_.v[0]; v.set( next ); nmade = 0; in_push = true; bool r = q->push( v ); in_push = false;
            if ( strict && r != ( room > 0 ) ) BAD( V_RESULT, "push returns %d with room for %d", r, room );
            if ( r ) { stored( 1 ); m.push_back( next ); } next++; }
        if ( o == 1 ) { Own< T > o_; T& v = o_.v[0]; bool r = q->pop( v ); if ( r != !m.empty( ) ) BAD( V_RESULT, "pop returns %d with %zu stored", r, m.size( ) ); if ( r ) took( v, false ); }
        if ( o == 2 ) { size_t w = m.size( ), k = 0, r = q->consume_all( [&]( T const& e ) { k++; took( e, true ); } ); if ( r != w || k != w ) BAD( V_RESULT, "consume_all transfers %zu of %zu", r, w ); }
        if ( o == 3 ) { size_t w = m.size( ), k = 0, r = q->consume_one( [&]( T const& e ) { k++; took( e, true ); } ); if ( r != ( w > 0 ) || k != r ) BAD( V_RESULT, "consume_one transfers %zu of %zu", r, w ); }
        if constexpr ( K == RING ) {
            if ( o == 4 ) { Own< T, 2 > o_; T* v = o_.v; v[0].set( next ); v[1].set( next + 1 ); nmade = 0; in_push = true; size_t r = q->push( v, 2 ); in_push = false; size_t w = room < 2 ? room : 2;
                if ( r != w ) BAD( V_RESULT, "push of 2 returns %zu with room for %d", r, room ); 
                stored( r ); for ( size_t i = 0; i < r; i++ ) m.push_back( next + i ); next += 2; }
            if ( o == 5 && !m.empty( ) ) { T const& f = q->front( ); place( std::addressof( f ), sizeof( T ), al, "front() refers to an element" ); if ( !f.is( m[0] ) ) BAD( V_RESULT | V_MEM, "front() refers to another element" ); }
        }
    }
    void play( void* mem, int n, const int* s, int len, const char* name )
    {
        size_t l = snprintf( n_ctx, sizeof n_ctx, "%s, elements of %zu bytes aligned to %d, %s %d, container at %zu modulo 16384, operations ", name, sizeof( T ), al, Cap ? "capacity" : "size", n, (size_t)mem % 16384 );
        for ( int i = 0; i < len; i++ ) l += snprintf( n_ctx + l, sizeof n_ctx - l, "%d", s[i] );
        m.clear( ); at.clear( ); next = 1; nblk = 0; where = Where; c_lo = (u8*)mem; c_hi = c_lo + sizeof( Q ); memset( mem, 0xDB, sizeof( Q ) ); strict = K == RING || Cap || Where == 3;
        if constexpr ( Cap != 0 ) q = new ( mem ) Q( ); else q = new ( mem ) Q( (size_t)n );
        for ( int i = 0; i < len; i++ ) op( s[i], n );
        q->~Q( ); if ( nblk ) BAD( V_MEM | V_LEAK, "%d blocks not returned", nblk );
        n_term++;
    }
    void words( void* mem, int n, int d, const char* name )
    {
        const int K0 = K == RING ? 6 : 4; int s[16]; u64 w = 1; for ( int i = 0; i < d; i++ ) w *= K0;
        for ( u64 i = 0; i < w; i++ ) { u64 x = i; for ( int j = 0; j < d; j++ ) { s[j] = x % K0; x /= K0; } n_states++; play( mem, n, s, d, name ); }
    }
    void fill( void* mem, int n, const char* name ) { int s[64], l = 0; for ( int i = 0; i <= n && l < 30; i++ ) s[l++] = 0; s[l++] = 1; s[l++] = 0; s[l++] = 0; s[l++] = 2; for ( int i = 0; i <= n && l < 60; i++ ) s[l++] = 0; s[l++] = 2; n_states++; play( mem, n, s, l, name ); }
    void run( int d, const char* name )
    {
        const size_t span = 16384; size_t sz = ( sizeof( Q ) + 2 * span + 64 ) / span * span + span; u8* base = (u8*)graw( sz, span );
        int lo = Cap ? Cap : 1, hi = Cap ? Cap : 5;
        for ( int n = lo; n <= hi; n++ ) words( base, n, n == lo ? d : d - 1, name );
        if ( Cap ) {  // wherever the object lies
            size_t max = 2 * al > 256 ? 2 * al : 256;
            for ( size_t off = 0; off < max; off += alignof( Q ) ) {
                u8* mem = base + off; if ( off ) memset( base, 0xC7, off ); memset( mem + sizeof( Q ), 0xC7, 256 );
                fill( mem, Cap, name ); words( mem, Cap, 2, name );
                for ( size_t i = 1; i <= off; i++ ) if ( mem[-(long)i] != 0xC7 ) BAD( V_MEM, "memory in front of the container was written" );
                for ( size_t i = 0; i < 256; i++ ) if ( mem[sizeof( Q ) + i] != 0xC7 ) BAD( V_MEM, "memory behind the container was written" );
            }
        } else for ( int n = 1; n < 40; n++ ) fill( base, n, name );
        free( base - span );
    }
};
template < class T > static bool config( const char* c, int d )
{
#define GO( nm, K, W, N, ... ) if ( !strcmp( c, nm ) ) { Run< K, __VA_ARGS__, T, N, W >( ).run( d, nm ); return true; }
    typedef lf::allocator< LA< char > > A;
    GO( "q", QUEUE, 2, 0, lf::queue< T > ) GO( "qF", QUEUE, 2, 0, lf::queue< T, lf::fixed_sized< true > > ) GO( "qA", QUEUE, 1, 0, lf::queue< T, A > ) GO( "qFA", QUEUE, 1, 0, lf::queue< T, lf::fixed_sized< true >, A > )
    GO( "qC1", QUEUE, 0, 1, lf::queue< T, lf::capacity< 1 > > ) GO( "qC4", QUEUE, 0, 4, lf::queue< T, lf::capacity< 4 > > )
    GO( "s", STACK, 2, 0, lf::stack< T > ) GO( "sF", STACK, 2, 0, lf::stack< T, lf::fixed_sized< true > > ) GO( "sA", STACK, 1, 0, lf::stack< T, A > ) GO( "sFA", STACK, 1, 0, lf::stack< T, lf::fixed_sized< true >, A > )
    GO( "sC1", STACK, 0, 1, lf::stack< T, lf::capacity< 1 > > ) GO( "sC4", STACK, 0, 4, lf::stack< T, lf::capacity< 4 > > )
    GO( "r", RING, 2, 0, lf::spsc_queue< T > ) GO( "rA", RING, 1, 0, lf::spsc_queue< T, A > ) GO( "rC1", RING, 0, 1, lf::spsc_queue< T, lf::capacity< 1 > > ) GO( "rC4", RING, 0, 4, lf::spsc_queue< T, lf::capacity< 4 > > )
    return false;
}
static void run_line( const char* line )
{
    stack_top = (u8*)__builtin_frame_address( 0 ); n_mask = argn( line, "k", ~0u ); int d = argn( line, "d", 5 ), a = argn( line, "a" ), s = argn( line, "s" ); const char* c = arg( line, "c" );
#define TY( A, S ) if ( a == A && s == S && config< El< A, S > >( c, d ) ) return;
#define TZ( A, S ) if ( a == A && s == S && config< Tr< A, S > >( c, d ) ) return;
#ifdef PART3
    TZ( 1, 2 ) TZ( 1, 4 ) TZ( 2, 4 ) TZ( 1, 8 ) TZ( 4, 8 ) TZ( 8, 8 ) TZ( 1, 16 ) TZ( 8, 16 ) TZ( 4, 12 )
#elif defined( PART2 )
    TY( 256, 1 ) TY( 512, 1 ) TY( 512, 513 ) TY( 1024, 1 ) TY( 2048, 1 ) TY( 4096, 1 ) TY( 128, 129 ) TY( 32, 1 ) TY( 16, 40 )
#else
    TY( 1, 1 ) TY( 1, 3 ) TY( 1, 61 ) TY( 2, 1 ) TY( 4, 1 ) TY( 8, 1 ) TY( 8, 24 ) TY( 16, 1 ) TY( 64, 1 ) TY( 64, 65 ) TY( 128, 1 )
#endif
    nviol( "no such configuration" );
}
