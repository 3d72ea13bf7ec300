// Sizes around the widths of integer types. c=ring: spsc_queue of n elements (2^8, 2^15, 2^16): every position and fill level next to
// the ends of the ring and to the content, every operation, batch sizes next to the boundaries. c=giant: byte rings of more than 2^31
// and 2^32 elements. c=stack / c=queue: node-based containers with n elements, every way of filling and emptying.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <algorithm>
#include <set>
#include <sys/mman.h>
#include <vector>
namespace lf = boost::lockfree;
typedef E< 0 > P8;
static u64 val( u64 i ) { return i * 0x9E3779B97F4A7C15ull >> 7; }
template < class T > static T mk( u64 i ) { return (T)val( i ); }

template < class T, class Q > struct Big {
    u64 n; Q* q; u64 first, last;      // elements first..last-1 are stored
    u64 size( ) { return last - first; }
    void look( )
    {
        n_states++;
        size_t r = q->read_available( ), w = q->write_available( );
        if ( r != size( ) ) BAD( V_RESULT | V_CAP | V_AVAIL | V_LIN, "read_available() is %zu with %llu elements stored", r, (unsigned long long)size( ) );
        if ( w != n - size( ) ) BAD( V_RESULT | V_CAP | V_AVAIL | V_LIN, "write_available() is %zu with room for %llu", w, (unsigned long long)( n - size( ) ) );
        if ( q->empty( ) != !size( ) ) BAD( V_RESULT | V_LIN, "empty() is wrong with %llu elements stored", (unsigned long long)size( ) );
        if ( size( ) && q->front( ) != mk< T >( first ) ) BAD( V_RESULT | V_AVAIL | V_LIN, "front() is not the oldest element" );
    }
    void put( u64 k, char how, u64 chunk )
    {
        u64 want = std::min( k, n - size( ) ), got = 0; n_trans++;
        if ( how == 'u' ) { for ( u64 i = 0; i < k; i++ ) { if ( !q->push( mk< T >( last + i ) ) ) break; got++; } }
        else {
            std::vector< T > v( k ); for ( u64 i = 0; i < k; i++ ) v[i] = mk< T >( last + i );
            if ( how == 'U' ) got = q->push( v.data( ), (size_t)k );
            else got = q->push( v.begin( ), v.end( ) ) - v.begin( );
        }
        if ( got != want ) BAD( V_RESULT | V_CAP | V_LIN, "push (%c) of %llu elements with room for %llu transfers %llu", how, (unsigned long long)k, (unsigned long long)( n - size( ) ), (unsigned long long)got );
        last += want;
    }
    void got_one( T v, u64 i ) { if ( v != mk< T >( first + i ) ) BAD( V_RESULT | V_LIN, "element %llu delivered wrong", (unsigned long long)( first + i ) ); }
    void get( u64 k, char how )
    {
        u64 all = size( ), want = strchr( "AOD", how ) ? all : std::min( k, all ), got = 0; n_trans++;
        if ( how == 'p' ) { T v; for ( u64 i = 0; i < k; i++ ) { if ( !q->pop( v ) ) break; got_one( v, i ); got++; } }
        else if ( how == 'c' ) { for ( u64 i = 0; i < k; i++ ) { if ( !q->consume_one( [&]( T v ) { got_one( v, i ); } ) ) break; got++; } }
        else if ( how == 'A' ) { u64 c = 0; got = q->consume_all( [&]( T v ) { if ( c >= all ) BAD( V_RESULT | V_LIN, "functor called too often" ); got_one( v, c++ ); } ); if ( c != got ) BAD( V_RESULT | V_LIN, "consume_all counts wrong" ); }
        else if ( how == 'D' ) { u64 c = 0; auto f = [&]( T v ) { if ( c >= all ) BAD( V_RESULT | V_LIN, "functor called too often" ); got_one( v, c++ ); }; got = q->consume_all( f ); if ( c != got ) BAD( V_RESULT | V_LIN, "consume_all counts wrong" ); }
        else if ( how == 'O' ) { std::vector< T > v; got = q->pop( std::back_inserter( v ) ); if ( got != v.size( ) ) BAD( V_RESULT | V_LIN, "pop to an iterator counts wrong" ); for ( u64 i = 0; i < got && i < all; i++ ) got_one( v[i], i ); }
        else { std::vector< T > v( k + 1, (T)77 ); got = q->pop( v.data( ), (size_t)k ); if ( got > k || v[k] != (T)77 ) BAD( V_RESULT | V_LIN, "pop writes beyond its array" ); for ( u64 i = 0; i < got && i < all; i++ ) got_one( v[i], i ); }
        if ( got != want ) BAD( V_RESULT | V_LIN, "taking (%c) %llu elements with %llu stored transfers %llu", how, (unsigned long long)k, (unsigned long long)all, (unsigned long long)got );
        first += want;
    }
    void run( )
    {
        std::set< u64 > s = { 0, 1, 2, n / 2, n - 1, n, n - 2, n - 255, n - 256, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536 };
        std::vector< u64 > at; for ( u64 x : s ) if ( x <= n ) at.push_back( x );
        first = last = 0;
        for ( u64 pos : at ) for ( u64 fill : at ) {
            if ( pos > 2 && pos < n - 2 && fill > 2 && fill < n - 2 && ( pos + fill + 1 ) % ( n + 1 ) > 3 ) continue;
            for ( char pu : { 'U', 'I', 'u' } ) for ( char po : { 'P', 'p', 'A', 'O', 'D', 'c' } ) {
                std::set< u64 > ks = { 1, fill, n - fill, n - fill + 1, ( n + 1 - ( pos + fill ) % ( n + 1 ) ) };
                for ( u64 k : ks ) {
                    if ( k > n + 1 ) continue;
                    snprintf( n_ctx, sizeof n_ctx, "capacity %llu, position %llu, fill %llu, operations %c %c of %llu", (unsigned long long)n, (unsigned long long)pos, (unsigned long long)fill, pu, po, (unsigned long long)k );
                    q->reset( ); first = last;                      // bring the ring to the position and fill level
                    u64 cur = last % ( n + 1 ), adv = ( pos + n + 1 - cur ) % ( n + 1 );
                    if ( adv ) { put( adv, 'U', 0 ); get( adv, 'P' ); }
                    if ( fill ) put( fill, 'U', 0 );
                    look( ); put( k, pu, 0 ); look( ); get( k, po ); look( ); get( n, 'P' ); look( );
                    n_term++;
                }
            }
        }
    }
};
static void giant( u64 n )
{
    typedef lf::spsc_queue< u8 > Q; Q* pq;
    try { pq = new Q( n ); } catch ( std::bad_alloc& ) { return; }      // not enough memory here
    Q& q = *pq;
    snprintf( n_ctx, sizeof n_ctx, "capacity %llu", (unsigned long long)n );
    // a periodic source: the same pages over and over; the period divides no power of two
    const u64 per = 257 * 4096, big = n - 8, maps = ( big + per - 1 ) / per + 1;
    char name[64]; int fd = memfd_create( "src", 0 ); if ( fd < 0 || ftruncate( fd, per ) ) { printf( "cannot create the source\n" ); _exit( 3 ); }
    u8* base = (u8*)mmap( 0, maps * per, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    u8* w = (u8*)mmap( 0, per, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    if ( base == MAP_FAILED || w == MAP_FAILED ) { printf( "cannot map\n" ); _exit( 3 ); }
    for ( u64 i = 0; i < per; i++ ) w[i] = (u8)( val( i ) );
    for ( u64 i = 0; i < maps; i++ ) if ( mmap( base + i * per, per, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { printf( "cannot map\n" ); _exit( 3 ); }
    auto chk = [&]( u64 stored, const char* when ) {
        n_states++;
        if ( q.read_available( ) != stored || q.write_available( ) != n - stored || q.empty( ) != !stored )
            BAD( V_RESULT | V_CAP | V_AVAIL | V_LIN, "%s: read_available() %zu, write_available() %zu with %llu elements stored", when, q.read_available( ), q.write_available( ), (unsigned long long)stored ); };
    chk( 0, "fresh" ); n_trans += 8;
    if ( q.push( base, big ) != big ) BAD( V_RESULT | V_CAP | V_LIN, "push of %llu elements into an empty buffer falls short", (unsigned long long)big );
    chk( big, "after one large push" );
    std::vector< u8 > buf( per + 16 ); u64 done = 0; size_t chunk = per + 5;
    while ( done < big - 1000 ) {
        u64 k = std::min< u64 >( chunk, big - 1000 - done );
        size_t r = q.pop( buf.data( ), k ); if ( r != k ) BAD( V_RESULT | V_LIN, "pop of %llu elements transfers %zu", (unsigned long long)k, r );
        if ( memcmp( buf.data( ), base + done % per, k ) ) BAD( V_RESULT | V_LIN, "elements around %llu delivered wrong", (unsigned long long)done );
        done += k;
        if ( ( done / chunk ) % 997 == 0 ) chk( big - done, "while draining" );
    }
    chk( 1000, "after a long drain" );
    // across the end of the ring
    size_t more = q.push( base + 11, 3000 ); if ( more != 3000 ) BAD( V_RESULT | V_CAP | V_LIN, "push across the end of the ring transfers %zu of 3000", more );
    chk( 4000, "across the end" );
    for ( u64 i = 0; i < 500; i++ ) { u8 v; if ( !q.pop( v ) || v != base[( done + i ) % per] ) BAD( V_RESULT | V_LIN, "element %llu delivered wrong", (unsigned long long)( done + i ) ); }
    u64 c = 500; size_t r = q.consume_all( [&]( u8 v ) { u8 e = c < 1000 ? base[( done + c ) % per] : base[11 + c - 1000]; if ( c >= 4000 || v != e ) BAD( V_RESULT | V_LIN, "consume_all delivers element %llu wrong", (unsigned long long)c ); c++; } );
    if ( r != 3500 || c != 4000 ) BAD( V_RESULT | V_LIN, "consume_all of 3500 elements reports %zu", r );
    chk( 0, "drained" );
    u64 room = q.write_available( ); size_t f = q.push( base, maps * per );       // fill to refusal from the middle
    if ( maps * per >= n ? f != n : f != maps * per ) BAD( V_RESULT | V_CAP | V_LIN, "filling transfers %zu of %llu", f, (unsigned long long)n );
    chk( f, "full" ); (void)room;
    r = q.pop( buf.data( ), 100 ); if ( r != 100 || memcmp( buf.data( ), base, 100 ) ) BAD( V_RESULT | V_LIN, "first elements of a full buffer delivered wrong" );
    chk( f - 100, "nearly full" );
    n_term++; (void)name; close( fd );
}
template < class C, bool Lifo > static void many( u64 n )
{
    static const char* fills[] = { "u", "b", "U", "s", "S" }; static const char* drains[] = { "p", "P", "c", "A", "D", "a", "v", "E", "V" };
    C c( 3 );
    for ( const char* f : fills ) for ( const char* d : drains ) for ( int half = 0; half < 2; half++ ) {
        if ( !Lifo && ( strchr( "sS", *f ) || strchr( "avEV", *d ) ) ) continue;
        snprintf( n_ctx, sizeof n_ctx, "%llu elements, filled by %c, drained by %c", (unsigned long long)n, *f, *d ); n_trans++;
        if ( *f == 'b' ) c.reserve( n );
        auto el = [&]( u64 i ) { P8 p = Val< P8 >::make( (u32)i ); return p; };
        if ( strchr( "sS", *f ) ) {
            if constexpr ( Lifo ) { std::vector< P8 > v; for ( u64 i = 0; i < n; i++ ) v.push_back( el( i ) ); auto it = *f == 's' ? c.push( v.begin( ), v.end( ) ) : c.unsynchronized_push( v.begin( ), v.end( ) ); if ( it != v.end( ) ) BAD( V_RESULT | V_CAP | V_LIN, "ranged push stops after %zu of %llu", (size_t)( it - v.begin( ) ), (unsigned long long)n ); }
        } else for ( u64 i = 0; i < n; i++ ) if ( !( *f == 'u' ? c.push( el( i ) ) : *f == 'b' ? c.bounded_push( el( i ) ) : c.unsynchronized_push( el( i ) ) ) ) BAD( V_RESULT | V_CAP | V_LIN, "push of element %llu refused", (unsigned long long)i );
        u64 lo = 0, hi = n;
        auto got = [&]( P8 const& p, bool rev = false ) { if ( lo >= hi ) BAD( V_RESULT | V_LIN, "more elements delivered than were pushed" ); u32 id = Val< P8 >::get( p ), e = Lifo && !rev ? (u32)--hi : (u32)lo++; if ( id != e ) BAD( V_RESULT | V_LIN, "element %u delivered, expected %u", id, e ); };
        if ( half ) for ( u64 i = 0; i < n / 2; i++ ) { P8 p; if ( !c.pop( p ) ) BAD( V_RESULT | V_LIN, "pop fails with %llu elements stored", (unsigned long long)( hi - lo ) ); got( p ); }
        u64 left = hi - lo, r = 0;
        auto fn = [&]( P8 const& p ) { got( p ); }; auto fr = [&]( P8 const& p ) { got( p, true ); };
        switch ( *d ) {
        case 'p': { P8 p; while ( c.pop( p ) ) { got( p ); r++; } break; }
        case 'P': { P8 p; while ( c.unsynchronized_pop( p ) ) { got( p ); r++; } break; }
        case 'c': while ( c.consume_one( fn ) ) r++; break;
        case 'A': r = c.consume_all( [&]( P8 const& p ) { got( p ); } ); break;
        case 'D': r = c.consume_all( fn ); break;
        default: if constexpr ( Lifo ) r = *d == 'a' ? c.consume_all_atomic( [&]( P8 const& p ) { got( p ); } ) : *d == 'E' ? c.consume_all_atomic( fn ) : *d == 'v' ? c.consume_all_atomic_reversed( [&]( P8 const& p ) { got( p, true ); } ) : c.consume_all_atomic_reversed( fr );
        }
        if ( r != left || lo != hi ) BAD( V_RESULT | V_LIN, "%llu of %llu elements delivered, %llu reported", (unsigned long long)( left - ( hi - lo ) ), (unsigned long long)left, (unsigned long long)r );
        if ( !c.empty( ) ) BAD( V_RESULT | V_LIN, "not empty after draining" );
        n_states++; n_term++;
    }
}
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); u64 n = argn( line, "n" ); const char* c = arg( line, "c" );
    if ( !strcmp( c, "ring" ) ) {
        if ( argn( line, "ct" ) ) {
            if ( n == 255 ) { typedef lf::spsc_queue< u32, lf::capacity< 255 > > Q; static Q q; Big< u32, Q > b{ n, &q, 0, 0 }; b.run( ); }
            else if ( n == 256 ) { typedef lf::spsc_queue< u32, lf::capacity< 256 > > Q; static Q q; Big< u32, Q > b{ n, &q, 0, 0 }; b.run( ); }
            else if ( n == 65535 ) { typedef lf::spsc_queue< u32, lf::capacity< 65535 > > Q; static Q q; Big< u32, Q > b{ n, &q, 0, 0 }; b.run( ); }
            else if ( n == 65536 ) { typedef lf::spsc_queue< u32, lf::capacity< 65536 > > Q; static Q q; Big< u32, Q > b{ n, &q, 0, 0 }; b.run( ); }
            else nviol( "no such capacity" );
        } else { typedef lf::spsc_queue< u32 > Q; Q q( n ); Big< u32, Q > b{ n, &q, 0, 0 }; b.run( ); }
    }
    else if ( !strcmp( c, "giant" ) ) giant( n );
    else if ( !strcmp( c, "stack" ) ) many< lf::stack< P8 >, true >( n );
    else many< lf::queue< P8 >, false >( n );
}
