// Enumerates element counts of index-addressed containers: construct, fill, refuse, drain, rotate.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "native.h"
#include <exception>
#include <memory>
namespace lf = boost::lockfree;
typedef unsigned long long ull;

template < class Q > struct Is { static const bool lifo = false; };
template < class... A > struct Is< lf::stack< A... > > { static const bool lifo = true; };

template < class Q > static void exercise( Q& q, u64 n )
{
    const bool lifo = Is< Q >::lifo; u32 v;
    if ( !q.empty( ) ) nviol( "%llu elements: not empty after construction", (ull)n );
    if ( q.pop( v ) ) nviol( "%llu elements: pop succeeds on an empty container", (ull)n );
    for ( int round = 0; round < 2; round++ ) {
        for ( u64 i = 0; i < n; i++ ) {
            bool ok = round == 0 ? ( i & 1 ? q.bounded_push( (u32)i ) : q.push( (u32)i ) ) : q.unsynchronized_push( (u32)i );
            if ( !ok ) nviol( "%llu elements: push %llu refused", (ull)n, (ull)i );
        }
        n_trans += n;
        if ( q.push( 7u ) || q.bounded_push( 7u ) || q.unsynchronized_push( 7u ) ) nviol( "%llu elements: accepts one element more", (ull)n );
        n_states += n;
        for ( u64 i = 0; i < n; i++ ) {
            v = ~0u;
            bool ok = round == 0 ? q.pop( v ) : q.unsynchronized_pop( v );
            u64 want = lifo ? n - 1 - i : i;
            if ( !ok ) nviol( "%llu elements: pop %llu reports empty", (ull)n, (ull)i );
            if ( v != want ) nviol( "%llu elements: pop %llu delivers %u, expected %llu", (ull)n, (ull)i, v, (ull)want );
        }
        n_trans += n;
        if ( !q.empty( ) || q.pop( v ) ) nviol( "%llu elements: not empty after draining", (ull)n );
        if ( n > 2000 && round == 0 ) { for ( int i = 0; i < 3; i++ ) if ( !q.push( 5u ) || !q.pop( v ) || v != 5 ) nviol( "%llu elements: does not return what was pushed", (ull)n ); }
    }
    if ( n && !q.push( 1u ) ) nviol( "%llu elements: refuses to work after draining", (ull)n );
    n_term++;
}
template < class Q > static void run( u64 n, u64 limit )
{
    Q* q = 0;
    try { q = new Q( n ); }
    catch ( std::exception& ) { if ( n <= limit ) nviol( "%llu elements: rejected although the limit is %llu", (ull)n, (ull)limit ); n_term++; return; }
    if ( n > limit ) nviol( "%llu elements: accepted although only %llu can be addressed", (ull)n, (ull)limit );
    exercise( *q, n );
    delete q;
}
template < size_t N > static void fixed( bool st )
{
    if ( st ) { std::unique_ptr< lf::stack< u32, lf::capacity< N > > > s( new lf::stack< u32, lf::capacity< N > > ); exercise( *s, N ); }
    else if constexpr ( N < 65535 ) { std::unique_ptr< lf::queue< u32, lf::capacity< N > > > q( new lf::queue< u32, lf::capacity< N > > ); exercise( *q, N ); }
}
static void run_line( const char* line )
{
    n_kind = 32; bool st = !strcmp( arg( line, "c" ), "stack" );
    const char* ct = arg( line, "cap" );
    if ( ct[0] ) {
        switch ( atoi( ct ) ) {
#define F( N ) case N: fixed< N >( st ); break;
            F( 1 ) F( 2 ) F( 3 ) F( 127 ) F( 128 ) F( 254 ) F( 255 ) F( 256 ) F( 257 ) F( 4095 ) F( 4096 ) F( 32766 ) F( 32767 ) F( 32768 ) F( 32769 ) F( 65533 ) F( 65534 ) F( 65535 )
        }
        return;
    }
    u64 lo = argn( line, "lo" ), hi = argn( line, "hi" ), step = argn( line, "step", 1 );
    for ( u64 n = lo;; n += step ) {
        if ( st ) run< lf::stack< u32, lf::fixed_sized< true > > >( n, 65535 ); else run< lf::queue< u32, lf::fixed_sized< true > > >( n, 65534 );
        if ( hi - n < step ) break;
    }
}
