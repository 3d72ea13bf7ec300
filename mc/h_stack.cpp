// Concurrent harness for boost::lockfree::stack.
#ifdef DCAS
#include <boost/lockfree/detail/prefix.hpp>
#undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/lockfree/stack.hpp>
#include "hconc.h"

namespace lf = boost::lockfree;
static bool is_push_tok( char c ) { return c == 'u' || c == 'b' || c == 'r' || c == 'B'; }

// iterator over element ids; its comparison and dereference stay within the range
template < class P > struct It {
    typedef std::forward_iterator_tag iterator_category; typedef P value_type; typedef ptrdiff_t difference_type;
    typedef const P* pointer; typedef P const& reference;
    const P* base; int pos, n;
    P const& operator*( ) const { if ( pos >= n ) mc_violation( V_LIN, "iterator dereferenced at or beyond the end of the range" ); return base[pos]; }
    It& operator++( ) { if ( pos >= n ) mc_violation( V_LIN, "iterator advanced beyond the end of the range" ); ++pos; return *this; }
    It operator++( int ) { It o = *this; ++*this; return o; }
    bool operator==( It const& o ) const { return pos == o.pos; }
    bool operator!=( It const& o ) const { return pos != o.pos; }
};

template < class P, class Q, bool Node, int Cap, bool Ranged > struct SH {
    static Q* q; static void* mem;
    static Q* obj( int t ) { return (Q*)( (char*)q + ( scn.o.mapping && t != MAINT && ( t & 1 ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 ) ); }
    static int cap( ) { return Cap ? Cap : scn.n; }

    template < class F > static bool cone( Q* q, F& f ) { return q->consume_one( f ); }
    static void op( int t, Tok k )
    {
        Q* q = obj( t );
        switch ( k.op ) {
        case 'u': case 'b': {
            P v = Pay< P >::make( k.id );
            mc_invoke( K_PUSH, 1, &k.id, k.op == 'b' );
            mc_forbid_alloc( 2 | ( !Node || k.op == 'b' ) );
            mc_enter( ); bool r = k.op == 'u' ? q->push( v ) : q->bounded_push( v ); mc_leave( );
            mc_respond( r, 0, 0 ); break;
        }
        case 'r': case 'B':
            if constexpr ( Ranged ) {
                u8 ids[MAXB]; alignas( P ) char buf[MAXB * sizeof( P )]; P* v = (P*)buf;
                for ( int i = 0; i < k.n; i++ ) { ids[i] = k.id + i; new ( v + i ) P( Pay< P >::make( ids[i] ) ); }
                It< P > b{ v, 0, k.n }, e{ v, k.n, k.n };
                mc_invoke( K_PUSH, k.n, ids, k.op == 'B' );
                mc_forbid_alloc( 2 | ( !Node || k.op == 'B' ) );
                mc_enter( ); It< P > r = k.op == 'r' ? q->push( b, e ) : q->bounded_push( b, e ); mc_leave( );
                if ( r.pos < 0 || r.pos > k.n ) mc_violation( V_LIN, "ranged push returned an iterator outside the range" );
                mc_respond( r.pos, 0, 0 );
                for ( int i = 0; i < k.n; i++ ) v[i].~P( );
            }
            break;
        case 'p': {
            P v = Pay< P >::make( 255 );
            mc_invoke( K_POP, 1, 0, 0 ); mc_forbid_alloc( 3 );
            mc_enter( ); bool r = q->pop( v ); mc_leave( );
            u8 id = Pay< P >::get( v );
            if ( !r && id != 255 ) mc_violation( V_LIN, "failed pop changed its argument" );
            mc_respond( r, &id, r ); break;
        }
        case 'x': {
            Out< P > o;
            mc_invoke( K_POP, 1, 0, 0 ); mc_forbid_alloc( 3 );
            mc_enter( ); bool r = q->pop( o ); mc_leave( );
            if ( r ) { mc_commit( ); if ( !o.id ) mc_violation( V_LIN, "corrupted element delivered" ); }
            mc_respond( r, &o.id, r ); break;
        }
        case 'c': case 'C': {
            u8 id = 0; int calls = 0;
            mc_invoke( K_POP, 1, 0, 0 ); mc_forbid_alloc( 3 );
            auto f = [&]( P const& v ) { mc_payload( &v, sizeof( P ) ); id = Pay< P >::get( v ); mc_commit( ); calls++; };
            auto const& cf = f;
            mc_enter( ); bool r = k.op == 'c' ? q->consume_one( cf ) : q->consume_one( f ); mc_leave( );
            if ( calls != (int)r ) mc_violation( V_LIN, "consume_one returned %d but called the functor %d times", r, calls );
            mc_respond( r, &id, r ); break;
        }
        case 'A': case 'D': {
            size_t calls = 0;
            mc_invoke( K_SUBPOP, 1, 0, 0 ); mc_forbid_alloc( 3 );
            auto f = [&]( P const& v ) { mc_payload( &v, sizeof( P ) ); u8 id = Pay< P >::get( v ); mc_commit( ); calls++; mc_respond( 1, &id, 1 ); mc_invoke( K_SUBPOP, 1, 0, 1 ); };
            auto const& cf = f;
            mc_enter( ); size_t r = k.op == 'A' ? q->consume_all( cf ) : q->consume_all( f ); mc_leave( );
            if ( calls != r ) mc_violation( V_LIN, "consume_all returned %zu but called the functor %zu times", r, calls );
            mc_respond( 0, 0, 0 ); break;
        }
        case 'a': case 'v': case 'E': case 'V': {
            u8 ids[MAXB]; size_t calls = 0;
            mc_invoke( k.op == 'a' || k.op == 'E' ? K_POPALL : K_POPALLR, 1, 0, 0 ); mc_forbid_alloc( 3 );
            auto f = [&]( P const& v ) { mc_payload( &v, sizeof( P ) ); u8 id = Pay< P >::get( v ); mc_commit( );
                if ( calls >= MAXB ) mc_violation( V_LIN, "functor called too often" ); ids[calls++] = id; };
            auto const& cf = f; size_t r;
            mc_enter( );
            r = k.op == 'a' ? q->consume_all_atomic( cf ) : k.op == 'E' ? q->consume_all_atomic( f ) : k.op == 'v' ? q->consume_all_atomic_reversed( cf ) : q->consume_all_atomic_reversed( f );
            mc_leave( );
            if ( calls != r ) mc_violation( V_LIN, "atomic consume returned %zu but called the functor %zu times", r, calls );
            mc_respond( (int)calls, ids, (int)calls ); break;
        }
        case 'e': {
            mc_invoke( K_EMPTY, 1, 0, 0 ); mc_forbid_alloc( 3 );
            mc_enter( ); bool r = q->empty( ); mc_leave( );
            mc_respond( r, 0, 0 ); break;
        }
        case 'R':
            if constexpr ( Node ) {
                mc_invoke( K_RESERVE, k.n, 0, 0 ); mc_forbid_alloc( 2 );
                mc_enter( ); q->reserve( k.n ); mc_leave( );
                mc_respond( 0, 0, 0 );
            }
            break;
        case 'W': {       // k.n rounds that take everything out and put it back in the same order, as one step
            u8 ids[32];
            mc_macro( 1 ); mc_forbid_alloc( 3 );
            for ( int rnd = 0; rnd < k.n; rnd++ ) {
                int c = 0; bool ok = true;
                for ( ;; ) { P v = Pay< P >::make( 255 ); mc_enter( ); bool r = q->pop( v ); mc_leave( ); if ( !r ) break; if ( c >= 32 ) mc_violation( V_LIN, "more elements popped than were ever pushed" ); ids[c++] = Pay< P >::get( v ); }
                if ( !c ) {
                    P v = Pay< P >::make( 253 ), w = Pay< P >::make( 255 );
                    mc_enter( ); ok = q->bounded_push( v ); mc_leave( );
                    if ( ok ) { mc_enter( ); ok = q->pop( w ); mc_leave( ); if ( !ok || Pay< P >::get( w ) != 253 ) mc_violation( V_LIN, "pushed element not returned" ); }
                    if ( !ok ) break;
                }
                for ( int i = 0; i < c; i++ ) { P v = Pay< P >::make( ids[1 ? c - 1 - i : i] ); mc_enter( ); ok = q->bounded_push( v ); mc_leave( ); if ( !ok ) mc_violation( V_CAP, "no room for an element that was just popped" ); }
            }
            mc_macro( 0 );
            break;
        }
        default: mc_violation( ~0u, "bad token %c", k.op );
        }
        mc_forbid_alloc( 0 );
    }
    static void thread( int t ) { for ( int i = 0; i < scn.nth[t]; i++ ) op( t, scn.th[t][i] ); }
    static void main_( )
    {
        mc_forbid_alloc( 0 );
        mem = mc_raw_alloc( sizeof( Q ), alignof( Q ) );
        mc_enter( );
        if constexpr ( Cap != 0 ) q = new ( mem ) Q( ); else q = new ( mem ) Q( scn.n );
        bool lf = q->is_lock_free( );
        mc_leave( );
#ifndef DCAS
        if ( !lf ) mc_violation( V_LOCKFREE, "is_lock_free() is false" );
#endif
        if ( scn.tagwrap ) mc_macro( 1 );
        for ( int i = 0; i < scn.tagwrap; i++ ) {
            P v = Pay< P >::make( 254 );
            mc_enter( ); q->push( v ); q->pop( v ); mc_leave( );
        }
        if ( scn.tagwrap ) mc_macro( 0 );
        for ( int i = 0; i < scn.ninit; i++ ) op( MAINT, scn.init[i] );
        int held = mc_live_objs( ); (void)held;
        mc_run_threads( );
        if ( scn.nofinal ) return;
        for ( ;; ) {
            mc_invoke( K_POP, 1, 0, 0 ); mc_forbid_alloc( 3 );
            u8 id = 0; bool r;
            { P v = Pay< P >::make( 255 ); mc_enter( ); r = q->pop( v ); mc_leave( ); id = r ? Pay< P >::get( v ) : 0; }
            mc_respond( r, &id, r );
            if ( !r ) break;
        }
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive in an empty stack", mc_live_objs( ) );
        if ( !scn.o.weak ) {
            int want = Node ? (int)mc_nodes( ) : cap( ), got = 0;
            for ( ; got <= want + 1 && got < 60; got++ ) {
                P v = Pay< P >::make( 100 + got );
                mc_enter( ); bool r = q->bounded_push( v ); mc_leave( );
                if ( !r ) break;
            }
            if ( got != want ) mc_violation( V_CAP, "after quiescence %d elements can be pushed, expected exactly %d", got, want );
            for ( int i = want / 2; want && i <= want; i++ ) {     // half is left for the destructor
                P v = Pay< P >::make( 255 );
                mc_enter( ); bool r = q->pop( v ); mc_leave( );
                int exp = want - 1 - ( i - want / 2 );
                if ( !r || Pay< P >::get( v ) != 100 + exp ) mc_violation( V_CAP, "refilled stack does not return what was pushed" );
                if ( exp == 0 ) break;
            }
        }
        mc_forbid_alloc( 1 );
        mc_enter( ); q->~Q( ); mc_leave( );
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive after destruction", mc_live_objs( ) );
        mc_raw_free( mem );
        if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory not returned by the destructor", mc_live_blocks( ) );
    }
    static Spec spec( ) { Spec s; memset( &s, 0, sizeof s ); s.lifo = 1; s.nodes = 1; s.cap = Node ? 0xffff : cap( ); s.dummy = 0; s.allocrule = scn.allocrule; return s; }
};
template < class P, class Q, bool N, int C, bool R > Q* SH< P, Q, N, C, R >::q;
template < class P, class Q, bool N, int C, bool R > void* SH< P, Q, N, C, R >::mem;
#ifndef IDX_RANGED
#define IDX_RANGED true
#endif
#define BIND( name, P, N, C, R, ... ) { name, SH< P, __VA_ARGS__, N, C, R >::main_, SH< P, __VA_ARGS__, N, C, R >::thread, SH< P, __VA_ARGS__, N, C, R >::spec }
static const Binding bindings[] = {
#ifdef DCAS
    BIND( "dcas", P1, true, 0, true, lf::stack< P1 > ),
    BIND( "dcas2", P2, true, 0, true, lf::stack< P2 > ),
#elif defined( PART2 )
    BIND( "nodet", PT, true, 0, true, lf::stack< PT > ),
    BIND( "fixedt", PT, false, 0, IDX_RANGED, lf::stack< PT, lf::fixed_sized< true > > ),
    BIND( "cap2t", PT, false, 2, IDX_RANGED, lf::stack< PT, lf::capacity< 2 > > ),
#else
    BIND( "node", P1, true, 0, true, lf::stack< P1 > ),
    BIND( "node2", P2, true, 0, true, lf::stack< P2 > ),
    BIND( "fixed", P1, false, 0, IDX_RANGED, lf::stack< P1, lf::fixed_sized< true > > ),
    BIND( "fixed2", P2, false, 0, IDX_RANGED, lf::stack< P2, lf::fixed_sized< true > > ),
    BIND( "cap1", P1, false, 1, IDX_RANGED, lf::stack< P1, lf::capacity< 1 > > ),
    BIND( "cap2", P1, false, 2, IDX_RANGED, lf::stack< P1, lf::capacity< 2 > > ),
    BIND( "cap3", P1, false, 3, IDX_RANGED, lf::stack< P1, lf::capacity< 3 > > ),
#endif
};
static const Binding* find_binding( const char* c ) { for ( auto& b : bindings ) if ( !strcmp( b.cfg, c ) ) return &b; return 0; }
int main( int ac, char** av ) { return conc_main( ac, av ); }
