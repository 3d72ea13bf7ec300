// Parts shared by the larger-size enumerators: element types with tracked lifetime, counting allocators, guarded memory.
#pragma once
#include "native.h"
#include <iterator>
#include <new>
#include <type_traits>
#include <stdexcept>
enum { V_LIN = 1, V_MEM = 2, V_CAP = 32, V_LEAK = 64, V_ALLOC = 128, V_LIFE = 256, V_EXC = 2048, V_SRC = 16384, V_RESULT = 32768, V_AVAIL = 131072 };
static u32 n_mask = ~0u; static char n_ctx[300];
#define BAD( kinds, ... ) do { if ( ( kinds ) & n_mask ) { char b_[300]; snprintf( b_, sizeof b_, __VA_ARGS__ ); n_kind = ( kinds ) & n_mask; nviol( "%s (%s)", b_, n_ctx ); } } while ( 0 )
struct Fault { };
static long f_copies = -1, f_allocs = -1;   // countdown to the injected fault, -1: none
static int f_fired;
static long n_live, n_copies;               // live tracked elements; element copies made
static u32 enc( u32 id ) { return id * 2654435761u ^ 0x5bd1e995u; }

// trivially copyable elements of several sizes
template < int Pad > struct E { u32 id, chk; char pad[Pad]; };
template <> struct E< 0 > { u32 id, chk; };
struct E1 { u8 id; };
template < class P > struct Val { static P make( u32 id ) { P p; memset( (void*)&p, (int)( id * 7 + 3 ), sizeof p ); p.id = id; p.chk = enc( id ); return p; }
    static u32 get( P const& p ) { if ( p.chk != enc( p.id ) ) BAD( V_RESULT | V_LIN, "corrupted element" ); P q = make( p.id ); if ( memcmp( (void*)&p, (void*)&q, sizeof p ) ) BAD( V_RESULT | V_LIN, "element bytes changed" ); return p.id; }
    static u32 norm( u32 id ) { return id; } };
template <> struct Val< E1 > { static E1 make( u32 id ) { E1 e; e.id = (u8)id; return e; } static u32 get( E1 const& e ) { return e.id; } static u32 norm( u32 id ) { return id & 255; } };
// sizes that are no multiple of a word
template < int N > struct EB { u8 id, pad[N - 1]; };
template < int N > struct Val< EB< N > > { static EB< N > make( u32 id ) { EB< N > e; e.id = (u8)id; for ( int i = 0; i < N - 1; i++ ) e.pad[i] = (u8)( (u8)id * 13 + i ); return e; }
    static u32 get( EB< N > const& e ) { for ( int i = 0; i < N - 1; i++ ) if ( e.pad[i] != (u8)( e.id * 13 + i ) ) BAD( V_RESULT | V_LIN, "element bytes changed" ); return e.id; } static u32 norm( u32 id ) { return id & 255; } };
// alignment
struct alignas( 32 ) EA { u32 id, chk; };
template <> struct Val< EA > { static EA make( u32 id ) { EA e; e.id = id; e.chk = enc( id ); return e; }
    static u32 get( EA const& e ) { if ( e.chk != enc( e.id ) ) BAD( V_RESULT | V_LIN, "corrupted element" ); return e.id; } static u32 norm( u32 id ) { return id; } };
// non-trivial element: every operation must meet a live element (or raw storage for construction)
static void copied( ) { n_copies++; if ( f_copies >= 0 && f_copies-- == 0 ) { f_fired++; throw Fault( ); } }
struct ET {
    u32 id; u32 state; ET* self;
    void live( ) const { if ( state != 0xA11FE || self != this ) BAD( V_LIFE, "operation on storage without a live element" ); }
    ET( u32 i ) : id( i ), state( 0xA11FE ), self( this ) { n_live++; }
    ET( ET const& o ) { o.live( ); copied( ); id = o.id; state = 0xA11FE; self = this; n_live++; }
    ET& operator=( ET const& o ) { o.live( ); live( ); id = o.id; return *this; }
    ~ET( ) { live( ); state = 0xDEAD; n_live--; }
};
template <> struct Val< ET > { static ET make( u32 id ) { return ET( id ); } static u32 get( ET const& e ) { e.live( ); return e.id; } static u32 norm( u32 id ) { return id; } };
// trivially destructible and assignable element whose copy constructor may throw (queue)
struct EF { u32 id, chk; EF( ) {} EF( u32 i ) : id( i ), chk( enc( i ) ) {} EF( EF const& o ) { copied( ); id = o.id; chk = o.chk; } EF& operator=( EF const& ) = default; };
template <> struct Val< EF > { static EF make( u32 id ) { return EF( id ); } static u32 get( EF const& e ) { if ( e.chk != enc( e.id ) ) BAD( V_RESULT | V_LIN, "corrupted element" ); return e.id; } static u32 norm( u32 id ) { return id; } };

// conversion target
template < class P > struct Conv { u32 id = 0xffffffff; Conv& operator=( P const& p ) { id = Val< P >::get( p ); return *this; } Conv( ) {} Conv( P const& p ) : id( Val< P >::get( p ) ) {} };
// forward iterator that stays within its range
template < class P > struct Rng {
    typedef std::forward_iterator_tag iterator_category; typedef P value_type; typedef ptrdiff_t difference_type; typedef const P* pointer; typedef P const& reference;
    const P* b; int pos, n;
    P const& operator*( ) const { if ( pos >= n || pos < 0 ) BAD( ~0u, "iterator dereferenced outside the range" ); return b[pos]; }
    Rng& operator++( ) { if ( pos >= n ) BAD( ~0u, "iterator advanced beyond the end of the range" ); ++pos; return *this; }
    Rng operator++( int ) { Rng o = *this; ++*this; return o; }
    bool operator==( Rng const& o ) const { return pos == o.pos; }
    bool operator!=( Rng const& o ) const { return pos != o.pos; }
};
// element of a range of another type than the container's
template < class P > struct Src { u32 id, no[2]; operator P( ) const { if ( no[0] != ~id || no[1] != id ) BAD( ~0u, "element of the source range changed" ); return Val< P >::make( id ); } };
template < class P > static Src< P > src( u32 id ) { return Src< P >{ id, { ~id, id } }; }
// functor with a state of its own: whoever calls a copy of a functor that was passed by reference loses it
template < class L > struct Fn { L l; long own; template < class V > void operator()( V&& v ) { own++; l( v ); } template < class V > void operator()( V&& v ) const { l( v ); } };
// memory with guard zones, filled with a pattern
struct Blk { void* p; size_t n, al; int src; };
static Blk blks[4096]; static int nblk; static long n_allocs; static size_t n_bytes;
static void* graw( size_t n, size_t al )
{
    if ( al < 16 ) al = 16;
    size_t g = 64 > al ? 64 : al;
    char* p = (char*)aligned_alloc( al, ( g + n + 64 + al - 1 ) / al * al );
    memset( p, 0xC7, g + n + 64 );
    return p + g;
}
static bool gok( void* q, size_t n, size_t al ) { size_t g = 64 > al ? 64 : al; u8* p = (u8*)q; for ( size_t i = 1; i <= g; i++ ) if ( p[-(long)i] != 0xC7 ) return false; for ( int i = 0; i < 64; i++ ) if ( p[n + i] != 0xC7 ) return false; return true; }
static void gfree( void* q, size_t n, size_t al ) { if ( al < 16 ) al = 16; size_t g = 64 > al ? 64 : al; if ( !gok( q, n, al ) ) BAD( ~0u, "memory next to the container's storage was written" ); memset( q, 0xDB, n ); free( (char*)q - g ); }
static void gcheck( ) { for ( int i = 0; i < nblk; i++ ) if ( !gok( blks[i].p, blks[i].n, blks[i].al < 16 ? 16 : blks[i].al ) ) BAD( ~0u, "memory next to the container's storage was written" ); }
template < class T > struct CA {
    typedef T value_type; int src;
    CA( int s = 0 ) : src( s ) {} template < class U > CA( CA< U > const& o ) : src( o.src ) {}
    template < class U > struct rebind { typedef CA< U > other; };
    T* allocate( size_t n )
    {
        if ( f_allocs >= 0 && f_allocs-- == 0 ) { f_fired++; throw std::bad_alloc( ); }
        n_allocs++; n_bytes += n * sizeof( T ); if ( nblk >= 4096 ) BAD( ~0u, "too many blocks" );
        void* p = graw( n * sizeof( T ), alignof( T ) ); blks[nblk++] = Blk{ p, n * sizeof( T ), alignof( T ), src }; return (T*)p;
    }
    void deallocate( T* p, size_t n )
    {
        for ( int i = nblk - 1; i >= 0; i-- ) if ( blks[i].p == p ) {
            if ( blks[i].n != n * sizeof( T ) ) BAD( V_SRC, "block of %zu bytes returned as %zu bytes", blks[i].n, n * sizeof( T ) );
            if ( blks[i].src != src ) BAD( V_SRC, "block of allocator %d returned to allocator %d", blks[i].src, src );
            gfree( p, blks[i].n, blks[i].al ); blks[i] = blks[--nblk]; return; }
        BAD( V_SRC | V_LEAK, "a block that is not outstanding is returned" );
    }
    template < class U > bool operator==( CA< U > const& o ) const { return src == o.src; }
    template < class U > bool operator!=( CA< U > const& o ) const { return src != o.src; }
};
