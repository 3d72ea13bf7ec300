// Two containers of one type side by side, each with its own allocator instance: every sequence of operations on either, including
// destruction and re-construction in the same storage, up to a depth. Each container has to behave as if it were alone.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <vector>
namespace lf = boost::lockfree;
enum What { QUEUE, STACK, SPSC };
template < class P, class Q, What W, int Cap, bool Node > struct Two {
    int n; void* mem[2]; Q* q[2]; std::vector< u32 > m[2]; u32 next; int seq[16]; int depth, ds;
    static const bool tracked = std::is_same< P, ET >::value;
    size_t room( int s ) { return Node ? 1000 : ( Cap ? Cap : n ) - m[s].size( ); }
    void create( int s )
    {
        int src = 5 + s;
        if constexpr ( Cap != 0 ) q[s] = new ( mem[s] ) Q( ); else q[s] = new ( mem[s] ) Q( (size_t)n, CA< char >( src ) );
        for ( int i = 0; i < nblk; i++ ) if ( blks[i].src != 5 && blks[i].src != 6 ) BAD( V_SRC, "memory obtained from an allocator that was not supplied" );
    }
    long blocks( int s ) { long k = 0; for ( int i = 0; i < nblk; i++ ) k += blks[i].src == 5 + s; return k; }
    void destroy( int s )
    {
        long other = blocks( 1 - s );
        q[s]->~Q( ); q[s] = 0; m[s].clear( ); memset( mem[s], 0xDB, sizeof( Q ) );
        if ( blocks( s ) ) BAD( V_LEAK | V_SRC, "%ld blocks of a container left after its destruction", blocks( s ) );
        if ( blocks( 1 - s ) != other ) BAD( V_SRC | V_LEAK, "the destruction of one container returns memory of another" );
    }
    void take( int s, u32 id )
    {
        if ( m[s].empty( ) ) BAD( V_RESULT | V_LIN, "an element comes out of an empty container" );
        u32 want = W == STACK ? m[s].back( ) : m[s].front( );
        if ( id != want ) BAD( V_RESULT | V_LIN, "element %u comes out instead of %u", id, want );
        if ( W == STACK ) m[s].pop_back( ); else m[s].erase( m[s].begin( ) );
    }
    void op( int s, int o )
    {
        long other = blocks( 1 - s ); n_trans++;
        switch ( o ) {
        case 0: if ( q[s] ) destroy( s ); else create( s ); return;
        case 1: { bool want = room( s ) > 0; u32 id = next++; P v = Val< P >::make( id ); if ( q[s]->push( v ) != want ) BAD( V_CAP | V_RESULT, "push %s", want ? "refused" : "accepted beyond the capacity" ); if ( want ) m[s].push_back( id ); break; }
        case 2: { P v = Val< P >::make( 0 ); bool r = q[s]->pop( v ); if ( r != !m[s].empty( ) ) BAD( V_RESULT | V_LIN, "pop returns %d with %zu elements stored", r, m[s].size( ) ); if ( r ) take( s, Val< P >::get( v ) ); break; }
        case 3:
            if constexpr ( W == QUEUE ) { bool want = Node ? true : room( s ) > 0; u32 id = next++; P v = Val< P >::make( id ); bool r = q[s]->bounded_push( v ); if ( !Node && r != want ) BAD( V_CAP, "bounded_push returns %d", r ); if ( r ) m[s].push_back( id ); }
            else { std::vector< P > in; for ( int i = 0; i < 2; i++ ) in.push_back( Val< P >::make( next + i ) ); const P* b = in.data( ); const P* e = q[s]->push( b, b + 2 );
                size_t want = room( s ) < 2 ? room( s ) : 2; if ( (size_t)( e - b ) != want ) BAD( V_CAP | V_RESULT, "pushing a range of 2 transfers %ld", (long)( e - b ) ); for ( size_t i = 0; i < want; i++ ) m[s].push_back( next + i ); next += 2; }
            break;
        case 4: {
            std::vector< u32 > out; auto f = [&]( P const& p ) { out.push_back( Val< P >::get( p ) ); }; size_t r;
            if constexpr ( W == STACK ) r = q[s]->consume_all_atomic( f ); else r = q[s]->consume_all( f );
            if ( r != m[s].size( ) || r != out.size( ) ) BAD( V_RESULT | V_LIN, "consuming all transfers %zu of %zu elements", r, m[s].size( ) );
            for ( u32 id : out ) take( s, id ); break; }
        }
        if ( blocks( 1 - s ) != other ) BAD( V_SRC, "an operation of one container uses the allocator of another" );
    }
    void one( int len )
    {
        nblk = 0; n_live = 0; next = 1; q[0] = q[1] = 0; m[0].clear( ); m[1].clear( );
        for ( int s = 0; s < 2; s++ ) create( s );
        for ( int i = 0; i < len; i++ ) op( seq[i] / 5, seq[i] % 5 );
        for ( int s = 0; s < 2; s++ ) if ( q[s] ) while ( !m[s].empty( ) && !( seq[0] & 1 ) ) op( s, 2 );
        if ( tracked && n_live != (long)( m[0].size( ) + m[1].size( ) ) ) BAD( V_LIFE | V_LEAK, "%ld elements alive, %zu stored", n_live, m[0].size( ) + m[1].size( ) );
        gcheck( );
        for ( int s = 0; s < 2; s++ ) if ( q[ s ^ ( len & 1 ) ] ) destroy( s ^ ( len & 1 ) );
        if ( nblk ) BAD( V_LEAK | V_SRC, "%d blocks not returned", nblk );
        if ( tracked && n_live ) BAD( V_LIFE, "%ld elements not destroyed", n_live );
        n_term++;
    }
    void rec( int len, bool a0, bool a1 )
    {
        n_states++;
        if ( len == depth ) { snprintf( n_ctx, sizeof n_ctx, "size %d, operations", n ); for ( int i = 0; i < len; i++ ) { size_t l = strlen( n_ctx ); snprintf( n_ctx + l, sizeof n_ctx - l, " %c%d", "AB"[seq[i] / 5], seq[i] % 5 ); } one( len ); return; }
        for ( int s = 0; s < 2; s++ ) for ( int o = 0; o < 5; o++ ) {
            bool al = s ? a1 : a0; if ( !al && o ) continue;
            if ( len == 0 && ds >= 0 && s * 5 + o != ds ) continue;
            seq[len] = s * 5 + o; rec( len + 1, s || o ? a0 : !a0, !s || o ? a1 : !a1 );
        }
    }
    void run( int nn, int d, int slice )
    {
        n = nn; depth = d; ds = slice; for ( int s = 0; s < 2; s++ ) { mem[s] = graw( sizeof( Q ), alignof( Q ) ); memset( mem[s], 0xDB, sizeof( Q ) ); }
        rec( 0, true, true );
    }
};
#define GO( ... ) { static Two< __VA_ARGS__ > t; t.run( n, d, ds ); return; }
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); int n = argn( line, "n", 2 ), d = argn( line, "d", 5 ), ds = (int)argn( line, "first", (u64)-1 );
    const char* c = arg( line, "c" );
    if ( !strcmp( c, "qnode" ) ) GO( EF, lf::queue< EF, lf::allocator< CA< char > > >, QUEUE, 0, true )
    if ( !strcmp( c, "qfixed" ) ) GO( EF, lf::queue< EF, lf::fixed_sized< true >, lf::allocator< CA< char > > >, QUEUE, 0, false )
    if ( !strcmp( c, "qcap" ) ) GO( EF, lf::queue< EF, lf::capacity< 2 > >, QUEUE, 2, false )
    if ( !strcmp( c, "snode" ) ) GO( ET, lf::stack< ET, lf::allocator< CA< char > > >, STACK, 0, true )
    if ( !strcmp( c, "sfixed" ) ) GO( ET, lf::stack< ET, lf::fixed_sized< true >, lf::allocator< CA< char > > >, STACK, 0, false )
    if ( !strcmp( c, "scap" ) ) GO( ET, lf::stack< ET, lf::capacity< 2 > >, STACK, 2, false )
    if ( !strcmp( c, "rrun" ) ) GO( ET, lf::spsc_queue< ET, lf::allocator< CA< char > > >, SPSC, 0, false )
    if ( !strcmp( c, "rrun8" ) ) GO( E< 0 >, lf::spsc_queue< E< 0 >, lf::allocator< CA< char > > >, SPSC, 0, false )
    if ( !strcmp( c, "rcap" ) ) GO( ET, lf::spsc_queue< ET, lf::capacity< 2 > >, SPSC, 2, false )
    if ( !strcmp( c, "rcap8" ) ) GO( E< 0 >, lf::spsc_queue< E< 0 >, lf::capacity< 2 > >, SPSC, 2, false )
    nviol( "no such configuration" );
}
