// Functors that use the container they are called from, and functors with a state of their own: every sequence of operations up to a depth.
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include "nparts.h"
#include <vector>
namespace lf = boost::lockfree;
enum { QUEUE, STACK, RING };
static const char* NEST[] = { "nothing", "push", "two pushes", "pop", "consume_one", "consume_all", "bounded_push, pop", "consume_all_atomic" };
template < int W, class Q, class P, int Cap, bool Fixed > struct Nest {
    Q* q; std::vector< u32 > m; u32 next; int n, held, floating, depth;
    static const int NN = W == RING ? 3 : W == STACK ? 8 : 7, NC = W == STACK ? 4 : 2, OPS = 2 + 2 * NC * NN;
    u32 front( ) { return W == STACK ? m.back( ) : m.front( ); }
    void drop( ) { if ( W == STACK ) m.pop_back( ); else m.erase( m.begin( ) ); }
    void push( bool bounded )
    {   // room taken by elements that are being consumed may or may not be free again
        int have = (int)m.size( ) + ( W == RING ? held : 0 ), lo = have + ( W == RING ? 0 : floating ); bool r; n_trans++;
        { P v = Val< P >::make( next ); if constexpr ( W == RING ) r = q->push( v ); else r = bounded ? q->bounded_push( v ) : q->push( v ); }
        if ( Fixed || W == RING ) {
            if ( r && (int)m.size( ) >= n ) BAD( V_CAP | V_RESULT, "a push inside a functor is accepted with %zu of %d elements stored", m.size( ), n );
            if ( !r && lo < n ) BAD( V_CAP | V_RESULT, "a push inside a functor is refused with %zu of %d elements stored", m.size( ), n );
        } else if ( !r && !bounded ) BAD( V_RESULT, "push refused" );
        if ( r ) m.push_back( next ); next++;
    }
    void pop( )
    {
        n_trans++; P v = Val< P >::make( 0 ); bool r = q->pop( v ); u32 id = Val< P >::get( v );
        if ( r != !m.empty( ) ) BAD( V_RESULT, "pop returns %d with %zu elements stored", r, m.size( ) );
        if ( r ) { if ( id != Val< P >::norm( front( ) ) ) BAD( V_RESULT, "pop delivers element %u instead of %u", id, front( ) ); drop( ); }
    }
    // one functor: keeps its count in itself, checks what it is given, and acts on the container in its first two calls
    struct F {
        Nest* t; int kind, nest; mutable long own; long* calls; std::vector< u32 >* taken; bool inner;
        void operator()( P const& e ) { own++; const_cast< F const& >( *this ).act( e ); }
        void operator()( P const& e ) const { act( e ); }
        void act( P const& e ) const
        {
            u32 id = Val< P >::get( e ); long c = ( *calls )++; if ( c > 40 ) BAD( V_RESULT, "functor called too often" );
            u32 want;
            if ( kind < 2 || !taken ) { if ( t->m.empty( ) ) BAD( V_RESULT, "functor called without an element" ); want = t->front( ); t->drop( ); t->floating++; }
            else { if ( c >= (long)taken->size( ) ) BAD( V_RESULT, "functor called too often" ); want = ( *taken )[c]; }
            if ( W == RING ) t->held++;
            if ( id != Val< P >::norm( want ) ) BAD( V_RESULT, "functor is given element %u instead of %u", id, want );
            if ( c < 2 && !inner ) {
                switch ( nest ) {
                case 1: t->push( false ); break;
                case 2: t->push( false ); t->push( false ); break;
                case 3: if constexpr ( W != RING ) t->pop( ); break;
                case 4: if constexpr ( W != RING ) t->consume( 0, 0, false, true ); break;
                case 5: if constexpr ( W != RING ) t->consume( 1, 0, true, true ); break;
                case 6: if constexpr ( W != RING ) { t->push( true ); t->pop( ); } break;
                case 7: if constexpr ( W == STACK ) t->consume( 2, 0, true, true ); break;
                }
                if ( W == QUEUE && t->q->empty( ) != t->m.empty( ) ) BAD( V_RESULT, "empty() is wrong inside a functor" );
                if ( W == STACK && t->q->empty( ) != t->m.empty( ) ) BAD( V_RESULT, "empty() is wrong inside a functor" );
                if ( Val< P >::get( e ) != id ) BAD( V_RESULT | V_LIFE, "the element changes while its functor runs" );
            }
            if ( W != RING && kind < 2 ) t->floating--;     // its node is returned when the functor is done
            if ( W != RING && kind >= 2 ) t->floating--;
        }
    };
    void consume( int kind, int nest, bool cst, bool inner )
    {
        n_trans++; long calls = 0; size_t r; std::vector< u32 > taken; size_t had = m.size( );
        if ( kind >= 2 ) { for ( u32 x : m ) taken.push_back( x ); if ( kind == 2 ) for ( size_t i = 0, j = taken.size( ); i + 1 < j; i++ ) { j--; u32 x = taken[i]; taken[i] = taken[j]; taken[j] = x; } m.clear( ); floating += (int)taken.size( ); }
        F f{ this, kind, nest, 0, &calls, kind >= 2 ? &taken : 0, inner }; F const& g = f; int h0 = held;
        switch ( kind ) {
        case 0: r = cst ? q->consume_one( g ) : q->consume_one( f ); break;
        case 1: r = cst ? q->consume_all( g ) : q->consume_all( f ); break;
        default: if constexpr ( W == STACK ) r = kind == 2 ? cst ? q->consume_all_atomic( g ) : q->consume_all_atomic( f ) : cst ? q->consume_all_atomic_reversed( g ) : q->consume_all_atomic_reversed( f );
        }
        held = h0; if ( W == RING ) floating = 0;
        if ( (long)r != calls ) BAD( V_RESULT, "%zu elements consumed by %ld calls of the functor", r, calls );
        if ( !cst && f.own != calls ) BAD( V_RESULT, "a copy of the functor is called" );
        if ( kind == 0 && r != ( had > 0 ) ) BAD( V_RESULT, "consume_one returns %zu with %zu elements stored", r, had );
        if ( kind == 1 && ( ( r < had && nest < 3 ) || ( W != RING && !m.empty( ) ) ) ) BAD( V_RESULT, "consume_all leaves elements behind" );
        if ( kind >= 2 && r != had ) BAD( V_RESULT, "%zu of %zu elements consumed", r, had );
    }
    void op( int o )
    {
        if ( o == 0 ) push( false );
        else if ( o == 1 ) pop( );
        else { o -= 2; bool cst = o & 1; o /= 2; consume( o / NN, o % NN, cst, false ); }
    }
    static void name( char* b, size_t l, int o )
    {
        static const char* K[] = { "consume_one", "consume_all", "consume_all_atomic", "consume_all_atomic_reversed" };
        if ( o < 2 ) snprintf( b, l, "%s; ", o ? "pop" : "push" ); else { o -= 2; snprintf( b, l, "%s(%s%s); ", K[o / 2 / NN], o & 1 ? "const, " : "", NEST[o / 2 % NN] ); }
    }
    void play( int fill, const int* s, int len, const char* c )
    {
        size_t l = snprintf( n_ctx, sizeof n_ctx, "%s size %d, %d elements, ", c, n, fill ); for ( int i = 0; i < len && l < sizeof n_ctx; i++ ) { name( n_ctx + l, sizeof n_ctx - l, s[i] ); l = strlen( n_ctx ); }
        m.clear( ); next = 1; held = floating = 0; n_live = 0;
        void* mem = graw( sizeof( Q ), alignof( Q ) );
        if constexpr ( Cap != 0 ) q = new ( mem ) Q( ); else q = new ( mem ) Q( (size_t)n );
        for ( int i = 0; i < fill; i++ ) push( false );
        for ( int i = 0; i < len; i++ ) op( s[i] );
        while ( !m.empty( ) ) pop( );
        pop( ); q->~Q( ); if ( n_live ) BAD( V_LIFE, "%ld elements alive after destruction", n_live );
        gfree( mem, sizeof( Q ), alignof( Q ) ); n_term++;
    }
    void run( int d, const char* c, int lo, int hi )
    {
        int s[8]; u64 w = 1; for ( int i = 0; i < d; i++ ) w *= OPS;
        for ( n = Cap ? Cap : lo; n <= ( Cap ? Cap : hi ); n++ ) for ( int fill = 0; fill <= 3; fill++ ) { if ( ( Fixed || W == RING ) && fill > n ) break;
            for ( u64 i = 0; i < w; i++ ) { u64 x = i; bool useful = false; for ( int j = 0; j < d; j++ ) { s[j] = x % OPS; x /= OPS; useful |= s[j] > 1; } if ( !useful ) continue; n_states++; play( fill, s, d, c ); } }
    }
};
static void run_line( const char* line )
{
    n_mask = argn( line, "k", ~0u ); int d = argn( line, "d", 3 ); const char* c = arg( line, "c" );
#define GO( nm, W, P, C, FX, ... ) if ( !strcmp( c, nm ) ) { Nest< W, __VA_ARGS__, P, C, FX >( ).run( d, nm, argn( line, "n", 1 ), argn( line, "n", 3 ) ); return; }
    GO( "q", QUEUE, EF, 0, false, lf::queue< EF > ) GO( "qF", QUEUE, EF, 0, true, lf::queue< EF, lf::fixed_sized< true > > ) GO( "qC1", QUEUE, EF, 1, true, lf::queue< EF, lf::capacity< 1 > > ) GO( "qC3", QUEUE, EF, 3, true, lf::queue< EF, lf::capacity< 3 > > )
    GO( "s", STACK, ET, 0, false, lf::stack< ET > ) GO( "sF", STACK, ET, 0, true, lf::stack< ET, lf::fixed_sized< true > > ) GO( "sC1", STACK, ET, 1, true, lf::stack< ET, lf::capacity< 1 > > ) GO( "sC3", STACK, ET, 3, true, lf::stack< ET, lf::capacity< 3 > > )
    GO( "r", RING, ET, 0, true, lf::spsc_queue< ET > ) GO( "rC1", RING, ET, 1, true, lf::spsc_queue< ET, lf::capacity< 1 > > ) GO( "rC3", RING, ET, 3, true, lf::spsc_queue< ET, lf::capacity< 3 > > )
    nviol( "no such configuration" );
}
