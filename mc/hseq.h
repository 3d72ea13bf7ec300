// Shared part of the sequence-mode harnesses: every sequence of operations, one at a time, against a sequential model.
#pragma once
#include "hconc.h"
#include <boost/interprocess/offset_ptr.hpp>
#include <cstddef>
#include <type_traits>

struct Fault {};
// element whose copies may throw (stack, spsc_queue): lifetime tracked
struct PF {
    u32 a;
    explicit PF( u8 id ) : a( enc( id ) ) { mc_obj( this, 1 ); }
    PF( ) : a( 0 ) { mc_obj( this, 1 ); }
    PF( PF const& o ) { mc_obj( &o, 0 ); if ( mc_fault( 1 ) ) throw Fault( ); a = o.a; mc_obj( this, 1 ); }
    PF& operator=( PF const& o ) { mc_obj( &o, 0 ); mc_obj( this, 0 ); if ( mc_fault( 1 ) ) throw Fault( ); a = o.a; return *this; }
    ~PF( ) { mc_obj( this, -1 ); a = 0xDEADDEAD; }
};
template <> struct Pay< PF > {
    static PF make( u8 id ) { return PF( id ); }
    static u8 get( const PF& p ) { mc_obj( &p, 0 ); if ( ( p.a & ~0xffu ) != enc( 0 ) ) mc_violation( V_RESULT, "corrupted element 0x%x delivered", p.a ); return (u8)p.a; }
};
// the same for the queue, which demands trivial assignment and destruction
struct QF {
    u32 a;
    QF( ) = default;
    explicit QF( u8 id ) : a( enc( id ) ) {}
    QF( QF const& o ) { if ( mc_fault( 1 ) ) throw Fault( ); a = o.a; }
    QF& operator=( QF const& o ) = default;
};
template <> struct Pay< QF > {
    static QF make( u8 id ) { QF q; q.a = enc( id ); return q; }
    static u8 get( const QF& p ) { if ( ( p.a & ~0xffu ) != enc( 0 ) ) mc_violation( V_RESULT, "corrupted element 0x%x delivered", p.a ); return (u8)p.a; }
};
// over-aligned element; the address is hidden from the compiler, which may conclude the alignment from the type
static u64 addr_of( const void* p ) { asm volatile( "" : "+r"( p ) ); return (u64)p; }
template < int AL, bool Tracked > struct alignas( AL ) PA {
    u32 a;
    void chk( ) const { if ( addr_of( this ) % AL ) mc_violation( V_SRC, "element of alignment %d placed at %p", AL, (void*)this ); }
    explicit PA( u8 id ) : a( enc( id ) ) {}
    PA( ) : a( 0 ) {}
    PA( PA const& o ) { chk( ); o.chk( ); a = o.a; }
    PA& operator=( PA const& o ) { chk( ); o.chk( ); a = o.a; return *this; }
    ~PA( ) {}
};
template < int AL > struct alignas( AL ) PA< AL, false > { u32 a; };
template < int AL, bool T > struct Pay< PA< AL, T > > {
    static PA< AL, T > make( u8 id ) { PA< AL, T > p; p.a = enc( id ); return p; }
    static u8 get( const PA< AL, T >& p ) {
        if ( addr_of( &p ) % AL ) mc_violation( V_SRC, "element of alignment %d at %p", AL, (void*)&p );
        if ( ( p.a & ~0xffu ) != enc( 0 ) ) mc_violation( V_RESULT, "corrupted element 0x%x delivered", p.a ); return (u8)p.a; }
};
// constructible but not implicitly convertible from the element type
template < class P > struct Ex {
    u8 id;
    Ex( ) : id( 0 ) {}
    explicit Ex( P const& p ) { id = Out< P >::raw( p ); }
};

// user-supplied allocator with identity
template < class T > struct UA {
    typedef T value_type;
    u32 who;
    UA( ) : who( 9 ) {}
    explicit UA( u32 w ) : who( w ) {}
    template < class U > UA( UA< U > const& o ) : who( o.who ) {}
    T* allocate( size_t n ) { void* p = (void*)mc_user_alloc( who, n * sizeof( T ), alignof( T ) ); if ( !p ) throw std::bad_alloc( ); return (T*)p; }
    void deallocate( T* p, size_t n ) { mc_user_free( who, p, n * sizeof( T ) ); }
    template < class U > struct rebind { typedef UA< U > other; };
    bool operator==( UA const& o ) const { return who == o.who; }
    bool operator!=( UA const& o ) const { return who != o.who; }
};
// the same with position-independent pointers
template < class T > struct OA {
    typedef T value_type;
    typedef boost::interprocess::offset_ptr< T > pointer;
    typedef boost::interprocess::offset_ptr< const T > const_pointer;
    u32 who;
    OA( ) : who( 9 ) {}
    explicit OA( u32 w ) : who( w ) {}
    template < class U > OA( OA< U > const& o ) : who( o.who ) {}
    pointer allocate( size_t n ) {
        u64 p = mc_user_alloc( who, n * sizeof( T ), alignof( T ) ); if ( !p ) throw std::bad_alloc( );
        return pointer( (T*)( p + ( mc_mapping( ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 ) ) ); }
    void deallocate( pointer p, size_t n ) { mc_user_free( who, &*p, n * sizeof( T ) ); }
    template < class U > struct rebind { typedef OA< U > other; };
    bool operator==( OA const& o ) const { return who == o.who; }
    bool operator!=( OA const& o ) const { return who != o.who; }
};
template < class Q > struct NoAlloc { static const bool user = false; };

// iterator over a range of elements that refuses to leave it
template < class P > struct It {
    typedef std::forward_iterator_tag iterator_category; typedef P value_type; typedef ptrdiff_t difference_type;
    typedef const P* pointer; typedef P const& reference;
    const P* base; int pos, n;
    P const& operator*( ) const { if ( pos >= n ) mc_violation( V_RESULT, "iterator dereferenced at or beyond the end of the range" ); return base[pos]; }
    It& operator++( ) { if ( pos >= n ) mc_violation( V_RESULT, "iterator advanced beyond the end of the range" ); ++pos; return *this; }
    It operator++( int ) { It o = *this; ++*this; return o; }
    bool operator==( It const& o ) const { return pos == o.pos; }
    bool operator!=( It const& o ) const { return pos != o.pos; }
};

// functor with a state of its own: whoever calls a copy of a functor that was passed by reference loses it
template < class L > struct Fn { L l; long own; template < class V > void operator()( V&& v ) { own++; l( v ); } template < class V > void operator()( V&& v ) const { l( v ); } };
struct Model {
    u8 it[24]; int n;
    bool has( u8 id ) const { for ( int i = 0; i < n; i++ ) if ( it[i] == id ) return true; return false; }
    u64 hash( ) const { u64 h = n; for ( int i = 0; i < n; i++ ) h = h * 257 + it[i] + 1; return h; }
    void add( u8 id ) { it[n++] = id; }
    u8 take_first( ) { u8 v = it[0]; memmove( it, it + 1, n - 1 ); n--; return v; }
    u8 take_last( ) { return it[--n]; }
};
static int ops_list( Tok* t )      // operations enabled by the scenario, in the order given
{
    int id = 0; return parse_toks( scn.ops, scn.ops + strlen( scn.ops ), t, id );
}
#define SEQ_BAD( ... ) mc_violation( V_RESULT, __VA_ARGS__ )
