// Every ring position, fill level and batch size of spsc_queue for capacities beyond those of the sequence-mode harness:
// each operation is applied to each state (position, fill) and result, transferred elements, remaining content, lifetime and
// guard zones are compared with a bounded FIFO. Also every placement of one throwing copy in every push.
#include <boost/lockfree/spsc_queue.hpp>
#include "nparts.h"
#include <list>
#include <vector>
namespace lf = boost::lockfree;

template < class P, class Q, int Cap > struct Ring {
    int cap; void* mem; Q* q; u32 m[600]; int mn; u32 next; int room( ) { return cap - mn; }
    static const bool tracked = std::is_same< P, ET >::value;
    void make( )
    {
        mem = graw( sizeof( Q ), alignof( Q ) ); memset( mem, 0x5A, sizeof( Q ) );
        if constexpr ( Cap ) q = new ( mem ) Q( ); else q = new ( mem ) Q( (size_t)cap, CA< P >( 5 ) );
        mn = 0; next = 1;
    }
    void take( u32 id, const char* what ) { if ( !mn ) BAD( V_RESULT | V_LIN, "%s delivers an element although none is stored", what ); if ( id != Val< P >::norm( m[0] ) ) BAD( V_RESULT | V_LIN, "%s delivers element %u, expected %u", what, id, m[0] ); memmove( m, m + 1, --mn * sizeof( u32 ) ); }
    void one_in( ) { P v = Val< P >::make( next ); if ( !q->push( v ) ) BAD( V_RESULT | V_CAP, "push refused with %d of %d elements stored", mn, cap ); m[mn++] = next++; }
    void one_out( ) { P v = Val< P >::make( 0 ); if ( !q->pop( v ) ) BAD( V_RESULT, "pop fails with %d elements stored", mn ); take( Val< P >::get( v ), "pop" ); }
    void look( )
    {
        n_states++;
        size_t r = q->read_available( ), w = q->write_available( );
        if ( (int)r != mn ) BAD( V_RESULT | V_CAP | V_AVAIL, "read_available() is %zu with %d elements stored", r, mn );
        if ( (int)w != room( ) ) BAD( V_RESULT | V_CAP | V_AVAIL, "write_available() is %zu with room for %d", w, room( ) );
        if ( q->empty( ) != ( mn == 0 ) ) BAD( V_RESULT, "empty() is wrong with %d elements stored", mn );
        if ( mn ) { Q const* cq = q; if ( Val< P >::get( cq->front( ) ) != Val< P >::norm( m[0] ) || Val< P >::get( q->front( ) ) != Val< P >::norm( m[0] ) ) BAD( V_RESULT | V_CAP | V_AVAIL, "front() is not the oldest element" );
            if ( ( (size_t)&q->front( ) ) % alignof( P ) ) BAD( V_SRC | V_RESULT, "misaligned element" ); }
        if ( tracked && n_live != mn ) BAD( V_LIFE, "%ld elements alive, %d stored", n_live, mn );
        guard( );
    }
    void guard( ) { if ( !gok( mem, sizeof( Q ), alignof( Q ) < 16 ? 16 : alignof( Q ) ) ) BAD( ~0u, "memory next to the queue was written" ); gcheck( ); }
    void finish( )      // drain, fill, refuse, destroy half full
    {
        while ( mn ) one_out( );
        { P v = Val< P >::make( 0 ); if ( q->pop( v ) ) BAD( V_RESULT, "pop succeeds on an empty queue" ); }
        for ( int i = 0; i < cap; i++ ) one_in( );
        { P v = Val< P >::make( 0 ); if ( q->push( v ) ) BAD( V_RESULT | V_CAP, "more than %d elements accepted", cap ); }
        for ( int i = 0; i < ( cap + 1 ) / 2; i++ ) one_out( );
        n_allocs = 0;
        q->~Q( ); if ( n_live ) BAD( V_LIFE, "%ld elements alive after destruction", n_live );
        if ( nblk ) BAD( V_LEAK | V_SRC, "%d blocks not returned by the destructor", nblk );
        if ( n_allocs ) BAD( V_ALLOC, "destruction allocates" );
        gfree( mem, sizeof( Q ), alignof( Q ) ); n_term++;
    }
    // op: kind and batch size; fault: index of the throwing copy, or -1
    bool apply( int op, int k, int fault )
    {
        std::vector< P > in; std::vector< u32 > out; int r = 0; f_fired = 0; bool thrown = false; const char* what = "";
        bool push = op < 10; long live0 = 0;
        if ( push ) { in.reserve( k + 1 ); for ( int i = 0; i < k; i++ ) in.push_back( Val< P >::make( next + i ) ); }
        long allocs0 = n_allocs; n_copies = 0; f_copies = fault;
        auto lf_ = [&]( P const& v ) { out.push_back( Val< P >::get( v ) ); if ( out.size( ) > 700 ) BAD( V_RESULT, "functor called too often" ); }; Fn< decltype( lf_ ) > f{ lf_, 0 }; auto const& cf = f;
        std::vector< P > buf; if ( op == 11 || op == 12 ) { f_copies = -1; buf.reserve( k ); for ( int i = 0; i < k; i++ ) buf.push_back( Val< P >::make( 0 ) ); n_copies = 0; }
        n_trans++;
        try {
            switch ( op ) {
            case 0: what = "push"; r = q->push( in[0] ); break;
            case 1: what = "push of an array"; r = (int)q->push( in.data( ), (size_t)k ); break;
            case 2: { what = "push of a range"; Rng< P > b{ in.data( ), 0, k }, e{ in.data( ), k, k }, x = q->push( b, e ); r = x.pos; break; }
            case 3: { what = "push of pointers"; P const* x = q->push( (P const*)in.data( ), (P const*)in.data( ) + k ); r = (int)( x - in.data( ) ); break; }
            case 4: { what = "push of a range of another type"; std::vector< Src< P > > o; for ( int i = 0; i < k; i++ ) o.push_back( src< P >( next + i ) ); Src< P > const* x = q->push( (Src< P > const*)o.data( ), (Src< P > const*)o.data( ) + k ); r = (int)( x - o.data( ) ); break; }
            case 10: { what = "pop"; P v = Val< P >::make( 0 ); r = q->pop( v ); if ( r ) out.push_back( Val< P >::get( v ) ); else if ( Val< P >::get( v ) != 0 ) BAD( V_RESULT, "failed pop changes its argument" ); break; }
            case 11: what = "pop into an array"; r = (int)q->pop( buf.data( ), (size_t)k ); for ( int i = 0; i < k; i++ ) { u32 id = Val< P >::get( buf[i] ); if ( i < r ) out.push_back( id ); else if ( id ) BAD( V_RESULT, "pop writes beyond what it reports" ); } break;
            case 13: { what = "pop to an iterator"; std::list< P > l; r = (int)q->pop( std::back_inserter( l ) ); for ( P const& p : l ) out.push_back( Val< P >::get( p ) ); break; }
            case 14: what = "pop (discard)"; r = q->pop( ); if ( r && mn ) out.push_back( Val< P >::norm( m[0] ) ); break;
            case 15: { what = "pop into a convertible type"; Conv< P > c; r = q->pop( c ); if ( r ) out.push_back( c.id ); else if ( c.id != 0xffffffff ) BAD( V_RESULT, "failed pop changes its argument" ); break; }
            case 16: what = "consume_one"; r = q->consume_one( cf ); break;
            case 17: what = "consume_one"; r = q->consume_one( f ); break;
            case 18: what = "consume_all"; r = (int)q->consume_all( cf ); break;
            case 19: what = "consume_all"; r = (int)q->consume_all( f ); break;
            case 20: what = "reset"; q->reset( ); mn = 0; break;
            }
        } catch ( Fault& ) { thrown = true; }
        f_copies = -1;
        if ( ( op == 17 || op == 19 ) && f.own != (long)out.size( ) ) BAD( V_RESULT, "%s calls a copy of the functor", what );
        if ( thrown != ( f_fired > 0 ) ) BAD( V_EXC, thrown ? "%s throws without a cause" : "exception raised inside %s does not reach the caller", what );
        if ( n_allocs != allocs0 ) BAD( V_ALLOC | V_RESULT, "%s allocates", what );
        int want;
        if ( push ) {
            want = op == 0 ? room( ) > 0 : k < room( ) ? k : room( );
            if ( !thrown && r != want ) BAD( V_RESULT | V_CAP | V_AVAIL, "%s of %d elements with room for %d transfers %d", what, k, room( ), r );
            if ( !thrown ) for ( int i = 0; i < want; i++ ) m[mn++] = next++;
            for ( int i = 0; i < k; i++ ) if ( Val< P >::get( in[i] ) != Val< P >::norm( next - ( thrown ? 0 : want ) + i ) ) BAD( V_RESULT, "%s changes its input", what );
        } else if ( op != 20 ) {
            bool all = op == 13 || op == 18 || op == 19; want = op == 11 ? ( k < mn ? k : mn ) : all ? mn : mn > 0;
            if ( r != want ) BAD( V_RESULT | V_AVAIL, "%s with %d elements stored transfers %d", what, mn, r );
            if ( (int)out.size( ) != r ) BAD( V_RESULT, "%s reports %d elements but delivers %zu", what, r, out.size( ) );
            for ( u32 id : out ) take( id, what );
        }
        in.clear( ); buf.clear( );
        return f_fired > 0;
    }
    void state( int pos, int fill ) { make( ); for ( int i = 0; i < pos; i++ ) { one_in( ); one_out( ); } for ( int i = 0; i < fill; i++ ) one_in( ); }
    void run( int c, int step, bool faults )
    {
        cap = c;
        static const int ops[] = { 0, 1, 2, 3, 4, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20 };
        for ( int pos = 0; pos <= cap; pos++ )
            for ( int fill = 0; fill <= cap; fill++ )
                for ( int op : ops ) {
                    bool batch = ( op >= 1 && op <= 4 ) || op == 11;
                    int room = cap - fill, lim = batch ? cap + 2 : 1;
                    for ( int k = batch ? 0 : 1; k <= lim; k++ ) {
                        // for large capacities only the batch sizes around the boundaries: ends of the ring, room, content, capacity
                        if ( batch && step > 1 && k > 2 && k % step ) {
                            int toend = cap + 1 - ( pos + fill ) % ( cap + 1 ), ptoend = cap + 1 - pos;
                            if ( abs( k - room ) > 1 && abs( k - fill ) > 1 && abs( k - toend ) > 1 && abs( k - ptoend ) > 1 && k < cap ) continue;
                        }
                        snprintf( n_ctx, sizeof n_ctx, "capacity %d, position %d, fill %d, operation %d of %d", cap, pos, fill, op, k );
                        if ( !faults ) { state( pos, fill ); look( ); apply( op, k, -1 ); look( ); finish( ); }
                        else if ( op < 10 && tracked ) for ( int j = 0; j < k; j++ ) {
                            snprintf( n_ctx, sizeof n_ctx, "capacity %d, position %d, fill %d, push %d of %d, copy %d throws", cap, pos, fill, op, k, j );
                            state( pos, fill ); bool fired = apply( op, k, j ); look( ); finish( ); if ( !fired ) break; }
                    }
                }
    }
};
template < class P > static void pick( int cap, bool ct, int step, bool faults )
{
    if ( !ct ) { static Ring< P, lf::spsc_queue< P, lf::allocator< CA< P > > >, 0 > r; r.run( cap, step, faults ); return; }
    switch ( cap ) {
#define C( N ) case N: { static Ring< P, lf::spsc_queue< P, lf::capacity< N > >, N > r; r.run( N, step, faults ); return; }
        C( 1 ) C( 2 ) C( 3 ) C( 5 ) C( 8 ) C( 15 ) C( 16 ) C( 31 ) C( 64 )
    }
    nviol( "no such capacity" );
}
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); int cap = argn( line, "n" ), step = argn( line, "step", 1 ); bool ct = argn( line, "ct" ), faults = argn( line, "faults" );
    const char* t = arg( line, "t" );
    if ( !strcmp( t, "e8" ) ) pick< E< 0 > >( cap, ct, step, faults );
    else if ( !strcmp( t, "e1" ) ) pick< E1 >( cap, ct, step, faults );
    else if ( !strcmp( t, "e100" ) ) pick< E< 92 > >( cap, ct, step, faults );
    else if ( !strcmp( t, "e3" ) ) pick< EB< 3 > >( cap, ct, step, faults );
    else if ( !strcmp( t, "e16" ) ) pick< E< 8 > >( cap, ct, step, faults );
    else if ( !strcmp( t, "ea" ) ) pick< EA >( cap, ct, step, faults );
    else pick< ET >( cap, ct, step, faults );
}
