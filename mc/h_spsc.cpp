// Concurrent harness for boost::lockfree::spsc_queue: thread 0 produces, thread 1 consumes.
#include <boost/lockfree/spsc_queue.hpp>
#include "hconc.h"
#include <iterator>

namespace lf = boost::lockfree;
static bool is_push_tok( char c ) { return c == 'u' || c == 'U' || c == 'I'; }
static int g_rot;

template < class P > struct It {
    typedef std::forward_iterator_tag iterator_category; typedef P value_type; typedef ptrdiff_t difference_type;
    typedef const P* pointer; typedef P const& reference;
    const P* base; int pos, n;
    P const& operator*( ) const { if ( pos >= n ) mc_violation( V_LIN, "iterator dereferenced at or beyond the end of the range" ); return base[pos]; }
    It& operator++( ) { if ( pos >= n ) mc_violation( V_LIN, "iterator advanced beyond the end of the range" ); ++pos; return *this; }
    It operator++( int ) { It o = *this; ++*this; return o; }
    bool operator==( It const& o ) const { return pos == o.pos; }
    bool operator!=( It const& o ) const { return pos != o.pos; }
};
template < class P > struct OutIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    u8* ids; int* n; int pos = 0;      // position kept in the iterator, as in a pointer; n: elements written, in order and once each
    struct Ref { u8* ids; int* n; int pos; Ref& operator=( P const& v ) { if ( pos >= MAXB || pos != *n ) mc_violation( V_LIN, "output iterator written at position %d after %d elements", pos, *n ); ids[pos] = Pay< P >::get( v ); *n = pos + 1; return *this; } };
    Ref operator*( ) { return Ref{ ids, n, pos }; }
    OutIt& operator++( ) { ++pos; return *this; }
    OutIt operator++( int ) { OutIt o = *this; ++pos; return o; }
};
template < class P > struct Buf {     // array of k live elements plus a guard
    alignas( P ) char raw[( MAXB + 1 ) * sizeof( P )]; int k;
    P* v( ) { return (P*)raw; }
    Buf( int n ) : k( n ) { for ( int i = 0; i < n + 1; i++ ) new ( v( ) + i ) P( Pay< P >::make( 255 ) ); }
    ~Buf( ) { for ( int i = 0; i < k + 1; i++ ) v( )[i].~P( ); }
};

template < class P, class Q, int Cap > struct RH {
    static Q* q; static void* mem;
    static Q* obj( int t ) { return (Q*)( (char*)q + ( scn.o.mapping && t != MAINT && ( t & 1 ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 ) ); }
    static int cap( ) { return Cap ? Cap : scn.n; }
    static void op( int t, Tok k )
    {
        Q* q = obj( t );
        mc_forbid_alloc( 3 );
        switch ( k.op ) {
        case 'u': {
            P v = Pay< P >::make( k.id );
            mc_invoke( K_PUSH, 1, &k.id, 0 );
            mc_enter( ); bool r = q->push( v ); mc_leave( );
            mc_respond( r, 0, 0 ); break;
        }
        case 'U': {
            u8 ids[MAXB]; Buf< P > b( k.n ); for ( int i = 0; i < k.n; i++ ) { ids[i] = k.id + i; b.v( )[i] = Pay< P >::make( ids[i] ); }
            mc_invoke( K_PUSH, k.n, ids, 0 );
            mc_enter( ); size_t r = q->push( (P const*)b.v( ), (size_t)k.n ); mc_leave( );
            mc_respond( (int)r, 0, 0 ); break;
        }
        case 'I': {
            u8 ids[MAXB]; Buf< P > b( k.n ); for ( int i = 0; i < k.n; i++ ) { ids[i] = k.id + i; b.v( )[i] = Pay< P >::make( ids[i] ); }
            It< P > bb{ b.v( ), 0, k.n }, e{ b.v( ), k.n, k.n };
            mc_invoke( K_PUSH, k.n, ids, 0 );
            mc_enter( ); It< P > r = q->push( bb, e ); mc_leave( );
            mc_respond( r.pos, 0, 0 ); break;
        }
        case 'p': {
            P v = Pay< P >::make( 255 );
            mc_invoke( K_POPN, 1, 0, 0 );
            mc_enter( ); bool r = q->pop( v ); mc_leave( );
            u8 id = Pay< P >::get( v ); if ( !r && id != 255 ) mc_violation( V_LIN, "failed pop changed its argument" );
            mc_respond( r, &id, r ); break;
        }
        case 'x': {
            Out< P > o;
            mc_invoke( K_POPN, 1, 0, 0 );
            mc_enter( ); bool r = q->pop( o ); mc_leave( );
            if ( r ) { mc_commit( ); if ( !o.id ) mc_violation( V_LIN, "corrupted element delivered" ); }
            mc_respond( r, &o.id, r ); break;
        }
        case 'P': {
            Buf< P > b( k.n ); u8 ids[MAXB];
            mc_invoke( K_POPN, k.n, 0, 0 );
            mc_enter( ); size_t r = q->pop( b.v( ), (size_t)k.n ); mc_leave( );
            if ( r > k.n ) mc_violation( V_LIN, "pop returned more than requested" );
            for ( size_t i = 0; i <= k.n; i++ ) { u8 id = Pay< P >::get( b.v( )[i] ); if ( i < r ) ids[i] = id; else if ( id != 255 ) mc_violation( V_LIN, "pop wrote beyond the count it returned" ); }
            mc_respond( (int)r, ids, (int)r ); break;
        }
        case 'O': {
            u8 ids[MAXB]; int n = 0;
            mc_invoke( K_POPN, 200, 0, 0 );
            OutIt< P > o{ ids, &n };
            mc_enter( ); size_t r = q->pop( o ); mc_leave( );
            if ( (int)r != n ) mc_violation( V_LIN, "pop to output iterator returned %zu but delivered %d", r, n );
            mc_respond( n, ids, n ); break;
        }
        case 'c': case 'C': {
            u8 id = 0; int calls = 0;
            mc_invoke( K_POPN, 1, 0, 0 );
            auto f = [&]( P const& v ) { mc_payload( &v, sizeof( P ) ); id = Pay< P >::get( v ); mc_commit( ); calls++; };
            auto const& cf = f;
            mc_enter( ); bool r = k.op == 'c' ? q->consume_one( cf ) : q->consume_one( f ); mc_leave( );
            if ( calls != (int)r ) mc_violation( V_LIN, "consume_one returned %d but called the functor %d times", r, calls );
            mc_respond( r, &id, r ); break;
        }
        case 'A': case 'D': {
            u8 ids[MAXB]; size_t calls = 0;
            mc_invoke( K_POPN, 200, 0, 0 );
            auto f = [&]( P const& v ) { mc_payload( &v, sizeof( P ) ); if ( calls >= MAXB ) mc_violation( V_LIN, "functor called too often" ); ids[calls++] = Pay< P >::get( v ); mc_commit( ); };
            auto const& cf = f;
            mc_enter( ); size_t r = k.op == 'A' ? q->consume_all( cf ) : q->consume_all( f ); mc_leave( );
            if ( calls != r ) mc_violation( V_LIN, "consume_all returned %zu but called the functor %zu times", r, calls );
            mc_respond( (int)r, ids, (int)r ); break;
        }
        case 'r': {
            mc_invoke( K_RAVAIL, 1, 0, 0 );
            mc_enter( ); size_t r = ( (Q const*)q )->read_available( ); mc_leave( );
            if ( (int)r > cap( ) ) mc_violation( V_LIN, "read_available returned %zu with capacity %d", r, cap( ) );
            mc_respond( (int)r, 0, 0 ); break;
        }
        case 'w': {
            mc_invoke( K_WAVAIL, 1, 0, 0 );
            mc_enter( ); size_t r = ( (Q const*)q )->write_available( ); mc_leave( );
            if ( (int)r > cap( ) ) mc_violation( V_LIN, "write_available returned %zu with capacity %d", r, cap( ) );
            mc_respond( (int)r, 0, 0 ); break;
        }
        case 'f': case 'F': {
            mc_invoke( K_FRONT, 1, 0, 0 );
            mc_enter( ); u8 id = 0; bool have = q->read_available( ) > 0;
            if ( have ) { P const& r = k.op == 'f' ? ( (Q const*)q )->front( ) : q->front( ); mc_payload( &r, sizeof( P ) ); id = Pay< P >::get( r ); mc_commit( ); }
            mc_leave( );
            mc_respond( have, &id, have ); break;
        }
        case 'd': {
            mc_invoke( K_POPN, 1, 0, 0 );
            u8 id = 0;
            mc_enter( ); bool r;
            // the discarded value is observed through front() beforehand (consumer side)
            bool have = q->read_available( ) > 0;
            if ( have ) { id = Pay< P >::get( q->front( ) ); r = q->pop( ); }
            else { P v = Pay< P >::make( 255 ); r = q->pop( v ); id = Pay< P >::get( v ); }
            mc_leave( );
            if ( have && !r ) mc_violation( V_LIN, "pop failed although read_available promised an element" );
            mc_respond( r, &id, r ); break;
        }
        default: mc_violation( ~0u, "bad token %c", k.op );
        }
        mc_forbid_alloc( 0 );
    }
    static void thread( int t ) { for ( int i = 0; i < scn.nth[t]; i++ ) op( t, scn.th[t][i] ); }
    static void main_( )
    {
        mc_forbid_alloc( 0 );
        mem = mc_raw_alloc( sizeof( Q ), alignof( Q ) );
        mc_enter( );
        if constexpr ( Cap != 0 ) q = new ( mem ) Q( ); else q = new ( mem ) Q( scn.n );
        bool lf = q->is_lock_free( );
        mc_leave( );
        if ( !lf ) mc_violation( V_LOCKFREE, "is_lock_free() is false" );
        for ( int i = 0; i < scn.tagwrap; i++ ) {       // rotate the ring
            P v = Pay< P >::make( 254 );
            mc_enter( ); q->push( v ); q->pop( v ); mc_leave( );
        }
        for ( int i = 0; i < scn.ninit; i++ ) op( MAINT, scn.init[i] );
        mc_run_threads( );
        if ( scn.nofinal ) return;
        mc_enter( ); size_t ra = q->read_available( ), wa = q->write_available( ); mc_leave( );
        if ( (int)( ra + wa ) != cap( ) ) mc_violation( V_CAP, "read_available %zu + write_available %zu differ from capacity %d at quiescence", ra, wa, cap( ) );
        for ( size_t cnt = 0;; cnt++ ) {
            u8 id = 0; bool r;
            mc_invoke( K_POPN, 1, 0, 0 ); mc_forbid_alloc( 3 );
            { P v = Pay< P >::make( 255 ); mc_enter( ); r = q->pop( v ); mc_leave( ); id = r ? Pay< P >::get( v ) : 0; }
            mc_respond( r, &id, r );
            if ( r != ( cnt < ra ) ) mc_violation( V_CAP, "read_available was %zu, but %s", ra, r ? "more can be popped" : "fewer can be popped" );
            if ( !r ) break;
        }
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive in an empty queue", mc_live_objs( ) );
        if ( !scn.o.weak ) {
            int want = cap( ), got = 0;
            for ( ; got <= want + 1; got++ ) {
                P v = Pay< P >::make( 100 + got );
                mc_enter( ); bool r = q->push( v ); mc_leave( );
                if ( !r ) break;
            }
            if ( got != want ) mc_violation( V_CAP, "after quiescence %d elements can be pushed, expected exactly %d", got, want );
            for ( int i = 0; i < ( want + 1 ) / 2; i++ ) {
                P v = Pay< P >::make( 255 );
                mc_enter( ); bool r = q->pop( v ); mc_leave( );
                if ( !r || Pay< P >::get( v ) != 100 + i ) mc_violation( V_CAP, "refilled queue does not return what was pushed" );
            }
        }
        mc_forbid_alloc( 1 );
        mc_enter( ); q->~Q( ); mc_leave( );
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive after destruction", mc_live_objs( ) );
        mc_raw_free( mem );
        if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory not returned by the destructor", mc_live_blocks( ) );
    }
    static Spec spec( ) { Spec s; memset( &s, 0, sizeof s ); s.cap = cap( ); return s; }
};
template < class P, class Q, int C > Q* RH< P, Q, C >::q;
template < class P, class Q, int C > void* RH< P, Q, C >::mem;
#define BIND( name, P, C, ... ) { name, RH< P, __VA_ARGS__, C >::main_, RH< P, __VA_ARGS__, C >::thread, RH< P, __VA_ARGS__, C >::spec }
static const Binding bindings[] = {
#ifdef PART2
    BIND( "runt", PT, 0, lf::spsc_queue< PT > ),
    BIND( "cap2t", PT, 2, lf::spsc_queue< PT, lf::capacity< 2 > > ),
    BIND( "cap3t", PT, 3, lf::spsc_queue< PT, lf::capacity< 3 > > ),
#else
    BIND( "run", P1, 0, lf::spsc_queue< P1 > ),
    BIND( "run2", P2, 0, lf::spsc_queue< P2 > ),
    BIND( "cap1", P1, 1, lf::spsc_queue< P1, lf::capacity< 1 > > ),
    BIND( "cap2", P1, 2, lf::spsc_queue< P1, lf::capacity< 2 > > ),
    BIND( "cap3", P1, 3, lf::spsc_queue< P1, lf::capacity< 3 > > ),
#endif
};
static const Binding* find_binding( const char* c ) { for ( auto& b : bindings ) if ( !strcmp( b.cfg, c ) ) return &b; return 0; }
int main( int ac, char** av ) { return conc_main( ac, av ); }
