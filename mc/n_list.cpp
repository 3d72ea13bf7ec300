// queue and stack with more nodes and larger batches than the sequence-mode harness: every (initial size, fill level, operation,
// batch size) is applied and result, order, remaining content, node accounting, allocator calls and lifetimes are compared with
// the specification. Also every placement of one failing element copy or allocation.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <vector>
namespace lf = boost::lockfree;
enum Store { NODE, FIXED, CAPT };

template < class P, class Q, bool Lifo, Store St, int Cap > struct L {
    int n; void* mem; Q* q; u32 m[600]; int mn; u32 next; long nodes;   // nodes usable for elements
    static const bool tracked = std::is_same< P, ET >::value;
    long room( ) { return nodes - mn; }
    void make( int n_ )
    {
        n = n_; mem = graw( sizeof( Q ), alignof( Q ) ); memset( mem, 0x5A, sizeof( Q ) ); mn = 0; next = 1; n_allocs = 0;
        if constexpr ( St == CAPT ) { q = new ( mem ) Q( ); nodes = Cap; } else { q = new ( mem ) Q( (size_t)n, CA< char >( 5 ) ); nodes = n; }
        if ( St == NODE && n_allocs != n + !Lifo ) BAD( V_ALLOC, "construction for %d elements allocates %ld blocks", n, n_allocs );
    }
    void take( u32 id, const char* what )
    {
        if ( !mn ) BAD( V_RESULT | V_LIN, "%s delivers an element although none is stored", what );
        u32 e = Val< P >::norm( Lifo ? m[mn - 1] : m[0] );
        if ( id != e ) BAD( V_RESULT | V_LIN, "%s delivers element %u, expected %u", what, id, e );
        if ( !Lifo ) memmove( m, m + 1, ( mn - 1 ) * sizeof( u32 ) );
        mn--;
    }
    void one_in( ) { P v = Val< P >::make( next ); if ( !q->push( v ) ) BAD( V_RESULT | V_CAP, "push refused with %d elements stored and room for %ld", mn, room( ) ); m[mn++] = next++; if ( mn > nodes ) nodes = mn; }
    void one_out( ) { P v = Val< P >::make( 0 ); if ( !q->pop( v ) ) BAD( V_RESULT | V_LIN, "pop fails with %d elements stored", mn ); take( Val< P >::get( v ), "pop" ); }
    void look( )
    {
        n_states++;
        if ( q->empty( ) != ( mn == 0 ) ) BAD( V_RESULT, "empty() is wrong with %d elements stored", mn );
        if ( tracked && n_live != mn ) BAD( V_LIFE, "%ld elements alive, %d stored", n_live, mn );
        if ( St == NODE && nblk - !Lifo != nodes ) BAD( V_ALLOC | V_CAP, "%d nodes allocated, expected %ld", nblk - !Lifo, nodes );
        guard( );
    }
    void guard( ) { if ( !gok( mem, sizeof( Q ), alignof( Q ) < 16 ? 16 : alignof( Q ) ) ) BAD( ~0u, "memory next to the container was written" ); gcheck( ); }
    void finish( int left )
    {
        while ( mn ) one_out( );
        { P v = Val< P >::make( 0 ); if ( q->pop( v ) ) BAD( V_RESULT, "pop succeeds on an empty container" ); }
        long a = n_allocs;
        for ( long i = 0; i < nodes; i++ ) { P v = Val< P >::make( next ); if ( !q->bounded_push( v ) ) BAD( V_RESULT | V_CAP, "only %ld elements fit, expected %ld", i, nodes ); m[mn++] = next++; }
        { P v = Val< P >::make( 0 ); if ( q->bounded_push( v ) ) BAD( V_RESULT | V_CAP, "more than %ld elements accepted", nodes ); }
        while ( mn > left ) one_out( );
        q->~Q( ); if ( n_live ) BAD( V_LIFE, "%ld elements alive after destruction", n_live );
        if ( n_allocs != a ) BAD( V_ALLOC, "bounded operations allocate" );
        if ( nblk ) BAD( V_LEAK | V_SRC, "%d blocks not returned by the destructor", nblk );
        gfree( mem, sizeof( Q ), alignof( Q ) ); n_term++;
    }
    struct Op { char c; const char* name; bool push, batch; };
    bool apply( char c, int k, long fcopy, long falloc )
    {
        std::vector< P > in; std::vector< u32 > out; int r = 0; bool thrown = false; n_trans++; f_fired = 0;
        bool push = strchr( "ubUsBStTw", c ), batch = strchr( "sBStTw", c ), all = strchr( "ADaEvV", c ), rev = strchr( "vV", c );
        if ( push ) { in.reserve( k + 1 ); for ( int i = 0; i < k; i++ ) in.push_back( Val< P >::make( next + i ) ); }
        auto lf_ = [&]( P const& v ) { out.push_back( Val< P >::get( v ) ); if ( out.size( ) > 700 ) BAD( V_RESULT, "functor called too often" ); }; Fn< decltype( lf_ ) > f{ lf_, 0 }; auto const& cf = f;
        long a0 = n_allocs, b0 = nblk; char what[20]; snprintf( what, sizeof what, "operation %c", c );
        f_copies = push ? fcopy : -1; f_allocs = falloc;
        try {
            switch ( c ) {
            case 'u': r = q->push( in[0] ); break;
            case 'b': r = q->bounded_push( in[0] ); break;
            case 'U': r = q->unsynchronized_push( in[0] ); break;
            case 'p': case 'P': { f_copies = -1; P v = Val< P >::make( 0 ); r = c == 'p' ? q->pop( v ) : q->unsynchronized_pop( v ); u32 id = Val< P >::get( v ); if ( r ) out.push_back( id ); break; }
            case 'x': case 'X': { Conv< P > v; r = c == 'x' ? q->pop( v ) : q->unsynchronized_pop( v ); if ( r ) out.push_back( v.id ); break; }
            case 'c': r = q->consume_one( cf ); break; case 'C': r = q->consume_one( f ); break;
            case 'A': r = (int)q->consume_all( cf ); break; case 'D': r = (int)q->consume_all( f ); break;
            case 'R': case 'r': if constexpr ( St == NODE ) { if ( c == 'R' ) q->reserve( k ); else q->reserve_unsafe( k ); } break;
            default: if constexpr ( Lifo ) {
                Rng< P > b{ in.data( ), 0, k }, e{ in.data( ), k, k };
                std::vector< Src< P > > o; if ( strchr( "tTw", c ) ) for ( int i = 0; i < k; i++ ) o.push_back( src< P >( next + i ) ); Src< P > const *ob = o.data( ), *oe = ob + o.size( );
                switch ( c ) {
                case 't': r = (int)( q->push( ob, oe ) - ob ); break; case 'T': r = (int)( q->bounded_push( ob, oe ) - ob ); break; case 'w': r = (int)( q->unsynchronized_push( ob, oe ) - ob ); break;
                case 's': r = q->push( b, e ).pos; break; case 'B': r = q->bounded_push( b, e ).pos; break; case 'S': r = q->unsynchronized_push( b, e ).pos; break;
                case 'a': r = (int)q->consume_all_atomic( cf ); break; case 'E': r = (int)q->consume_all_atomic( f ); break;
                case 'v': r = (int)q->consume_all_atomic_reversed( cf ); break; case 'V': r = (int)q->consume_all_atomic_reversed( f ); break;
                }
            } }
        } catch ( Fault& ) { thrown = true; } catch ( std::bad_alloc& ) { thrown = true; }
        f_copies = f_allocs = -1;
        if ( strchr( "CDEV", c ) && f.own != (long)out.size( ) ) BAD( V_RESULT, "%s calls a copy of the functor", what );
        if ( thrown != ( f_fired > 0 ) ) BAD( V_EXC, thrown ? "%s throws without a cause" : "exception raised inside %s does not reach the caller", what );
        long grown = nblk - b0, called = n_allocs - a0, rm = room( );
        if ( grown != called ) BAD( V_ALLOC, "%s returns memory to the allocator", what );
        if ( push ) {
            bool grows = St == NODE && c != 'b' && c != 'B' && c != 'T';
            long want = grows || k < rm ? k : rm, need = grows && k > rm ? k - rm : 0;
            if ( !thrown && r != want ) BAD( V_RESULT | V_CAP, "%s of %d elements with room for %ld transfers %d", what, k, rm, r );
            if ( thrown ? called > need : called != need ) BAD( V_ALLOC, "%s of %d elements with %ld free nodes makes %ld allocations", what, k, rm, called );
            if ( !thrown ) for ( int i = 0; i < want; i++ ) m[mn++] = next++;
            for ( int i = 0; i < k; i++ ) if ( Val< P >::get( in[i] ) != Val< P >::norm( next - ( thrown ? 0 : want ) + i ) ) BAD( V_RESULT, "%s changes its input", what );
            nodes += grown;
        } else if ( c == 'R' || c == 'r' ) {
            nodes += grown;
            if ( !thrown && room( ) < k ) BAD( V_ALLOC | V_CAP, "after reserve(%d) only %ld nodes are free", k, room( ) );
            if ( grown > k ) BAD( V_ALLOC, "reserve(%d) allocates %ld nodes", k, grown );
        } else {
            if ( called ) BAD( V_ALLOC, "%s allocates", what );
            int want = all ? mn : mn > 0;
            if ( r != want ) BAD( V_RESULT, "%s with %d elements stored transfers %d", what, mn, r );
            if ( (int)out.size( ) != r ) BAD( V_RESULT, "%s reports %d elements but delivers %zu", what, r, out.size( ) );
            if ( rev ) for ( int i = r - 1; i >= 0; i-- ) take( out[i], what ); else for ( u32 id : out ) take( id, what );
        }
        in.clear( );
        return f_fired > 0;
    }
    void state( int nn, int fill, int churn ) { make( nn ); for ( int i = 0; i < churn && ( St == NODE || nodes ); i++ ) { one_in( ); one_out( ); } for ( int i = 0; i < fill; i++ ) one_in( ); }
    void run( int nn, int maxk, bool faults )
    {
        static const char* ops = Lifo ? "ubUpPxXcCADRrsBStTwaEvV" : "ubUpPxXcCADRr";
        int cap = Cap ? Cap : nn;
        for ( int churn = 0; churn < 3; churn++ )
            for ( int fill = 0; fill <= ( St == NODE ? cap + 3 : cap ); fill++ )
                for ( const char* o = ops; *o; o++ ) {
                    bool batch = strchr( "sBSRrtTw", *o ), push = strchr( "ubUsBStTw", *o );
                    if ( St != NODE && strchr( "Rr", *o ) ) continue;
                    for ( int k = batch ? 0 : 1; k <= ( batch ? maxk : 1 ); k++ ) {
                        snprintf( n_ctx, sizeof n_ctx, "size %d, %d times push and pop, fill %d, operation %c of %d", cap, churn, fill, *o, k );
                        if ( !faults ) { state( nn, fill, churn ); look( ); apply( *o, k, -1, -1 ); look( ); finish( ( fill + k ) % 3 ); continue; }
                        for ( int alloc = 0; alloc < 2; alloc++ )
                            for ( int j = 0; j < k; j++ ) {
                                if ( !push && !alloc ) break;
                                snprintf( n_ctx, sizeof n_ctx, "size %d, %d times push and pop, fill %d, operation %c of %d, %s %d fails", cap, churn, fill, *o, k, alloc ? "allocation" : "copy", j );
                                state( nn, fill, churn ); bool fired = apply( *o, k, alloc ? -1 : j, alloc ? j : -1 );
                                look( ); finish( ( fill + k ) % 3 ); if ( !fired ) break;
                            }
                    }
                }
        if constexpr ( St != CAPT ) if ( faults ) for ( int j = 0; j <= nn + 1; j++ ) {    // construction that fails
            snprintf( n_ctx, sizeof n_ctx, "construction for %d elements, allocation %d fails", nn, j );
            f_fired = 0; f_allocs = j; bool thrown = false; mem = graw( sizeof( Q ), alignof( Q ) );
            try { q = new ( mem ) Q( (size_t)nn, CA< char >( 5 ) ); } catch ( std::bad_alloc& ) { thrown = true; }
            f_allocs = -1; if ( thrown != ( f_fired > 0 ) ) BAD( V_EXC, "construction: allocation failure does not reach the caller" );
            if ( !thrown ) q->~Q( );
            if ( nblk ) BAD( V_LEAK | V_SRC, "%d blocks lost by a failing construction", nblk );
            gfree( mem, sizeof( Q ), alignof( Q ) ); n_term++;
        }
    }
};
#define ST( P ) { \
    if ( !strcmp( s, "node" ) ) { static L< P, lf::stack< P, lf::allocator< CA< char > > >, true, NODE, 0 > l; l.run( n, maxk, faults ); return; } \
    if ( !strcmp( s, "fixed" ) ) { static L< P, lf::stack< P, lf::fixed_sized< true >, lf::allocator< CA< char > > >, true, FIXED, 0 > l; l.run( n, maxk, faults ); return; } \
    if ( !strcmp( s, "cap8" ) ) { static L< P, lf::stack< P, lf::capacity< 8 > >, true, CAPT, 8 > l; l.run( 8, maxk, faults ); return; } \
    if ( !strcmp( s, "cap17" ) ) { static L< P, lf::stack< P, lf::capacity< 17 > >, true, CAPT, 17 > l; l.run( 17, maxk, faults ); return; } }
#define QT( P ) { \
    if ( !strcmp( s, "node" ) ) { static L< P, lf::queue< P, lf::allocator< CA< char > > >, false, NODE, 0 > l; l.run( n, maxk, faults ); return; } \
    if ( !strcmp( s, "fixed" ) ) { static L< P, lf::queue< P, lf::fixed_sized< true >, lf::allocator< CA< char > > >, false, FIXED, 0 > l; l.run( n, maxk, faults ); return; } \
    if ( !strcmp( s, "cap8" ) ) { static L< P, lf::queue< P, lf::capacity< 8 > >, false, CAPT, 8 > l; l.run( 8, maxk, faults ); return; } \
    if ( !strcmp( s, "cap17" ) ) { static L< P, lf::queue< P, lf::capacity< 17 > >, false, CAPT, 17 > l; l.run( 17, maxk, faults ); return; } }
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); int n = argn( line, "n" ), maxk = argn( line, "maxk", 8 ); bool faults = argn( line, "faults" );
    const char* t = arg( line, "t" ), *s = arg( line, "s" );
    if ( !strcmp( arg( line, "c" ), "stack" ) ) {
        if ( !strcmp( t, "e8" ) ) ST( E< 0 > ) else if ( !strcmp( t, "e1" ) ) ST( E1 ) else if ( !strcmp( t, "e3" ) ) ST( EB< 3 > ) else if ( !strcmp( t, "e16" ) ) ST( E< 8 > ) else if ( !strcmp( t, "e100" ) ) ST( E< 92 > ) else if ( !strcmp( t, "ea" ) ) ST( EA ) else ST( ET )
    } else {
        if ( !strcmp( t, "e8" ) ) QT( E< 0 > ) else if ( !strcmp( t, "e1" ) ) QT( E1 ) else if ( !strcmp( t, "e3" ) ) QT( EB< 3 > ) else if ( !strcmp( t, "e16" ) ) QT( E< 8 > ) else if ( !strcmp( t, "e100" ) ) QT( E< 92 > ) else if ( !strcmp( t, "ea" ) ) QT( EA ) else QT( EF )
    }
    nviol( "no such configuration" );
}
