// Sequence-mode harness for boost::lockfree::stack.
#ifdef DCAS
#include <boost/lockfree/detail/prefix.hpp>
#undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/lockfree/stack.hpp>
#include "hseq.h"

namespace lf = boost::lockfree;
static bool is_push_tok( char c ) { return false; }

#ifndef IDX_RANGED
#define IDX_RANGED true
#endif
template < class P, class Q, bool Node, int Cap, bool User > struct SS {
    static const bool Ranged = Node || IDX_RANGED, Tracked = std::is_same< P, PT >::value || std::is_same< P, PF >::value;
    struct Ctx { Q* q; void* mem; Model m; Tok op[64]; int nop; };
    static Q* obj( Ctx& c ) { return (Q*)( (char*)c.q + ( mc_mapping( ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 ) ); }
    static int room( Ctx& c ) { return ( Node ? (int)mc_nodes( ) : Cap ? Cap : scn.n ) - c.m.n; }
    static u8 fresh( Ctx& c ) { u8 i = 1; while ( c.m.has( i ) ) i++; return i; }

    static void do_op( Ctx& c, Tok k )
    {
        Q* q = obj( c ); Model& m = c.m;
        switch ( k.op ) {
        case 'u': case 'b': case 'U': {
            u8 id = fresh( c ); P v = Pay< P >::make( id ); int rm = room( c ); int nodes = mc_nodes( );
            bool may = Node && k.op != 'b' && ( rm == 0 || scn.fmask );
            mc_log( "--- %s(%u)", k.op == 'u' ? "push" : k.op == 'b' ? "bounded_push" : "unsynchronized_push", id );
            mc_forbid_alloc( scn.fmask && may ? 0 : 2 | !may );
            mc_fault_set( scn.fmask, -1 );
            bool r = false, thrown = false;
            try { mc_enter( ); 
                if ( k.op == 'u' ) r = q->push( v ); else if ( k.op == 'b' ) r = q->bounded_push( v ); else r = q->unsynchronized_push( v );
                mc_leave( ); }
            catch ( Fault& ) { thrown = true; mc_leave( ); }
            catch ( std::bad_alloc& ) { thrown = true; mc_leave( ); }
            int fired = mc_fault_fired( );
            mc_fault_set( 0, -1 );
            if ( thrown && !fired ) mc_violation( V_EXC, "push throws without a cause" );
            if ( !thrown && fired ) mc_violation( V_EXC, "exception raised inside push does not reach the caller" );
            if ( thrown ) { mc_log( "    throws" ); break; }
            mc_log( "    returns %d", r );
            bool want = rm > 0 || ( Node && k.op != 'b' );
            if ( r != want ) mc_violation( V_RESULT | V_CAP, "push returns %d with %d elements stored and room for %d", r, m.n, rm );
            if ( r ) m.add( id );
            break;
        }
        case 'p': case 'P': {
            P v = Pay< P >::make( 255 ); mc_forbid_alloc( 3 ); mc_log( "--- %s", k.op == 'p' ? "pop" : "unsynchronized_pop" );
            mc_enter( ); bool r = k.op == 'p' ? q->pop( v ) : q->unsynchronized_pop( v ); mc_leave( );
            u8 id = Pay< P >::get( v ); if ( !r && id != 255 ) SEQ_BAD( "failed pop changed its argument to %u", id ); got( c, r, id ); break;
        }
        case 'x': case 'X': {
            Out< P > o; o.id = 200; mc_forbid_alloc( 3 ); mc_log( "--- %s into a convertible type", k.op == 'x' ? "pop" : "unsynchronized_pop" );
            mc_enter( ); bool r = k.op == 'x' ? q->pop( o ) : q->unsynchronized_pop( o ); mc_leave( );
            if ( !r && o.id != 200 ) SEQ_BAD( "failed pop changed its argument to %u", o.id ); got( c, r, o.id ); break;
        }
        case 'c': case 'C': {
            u8 id = 0; int calls = 0; mc_forbid_alloc( 3 ); mc_log( "--- consume_one" );
            auto lf_ = [&]( P const& v ) { id = Pay< P >::get( v ); calls++; }; Fn< decltype( lf_ ) > f{ lf_, 0 }; auto const& cf = f;
            mc_enter( ); bool r = k.op == 'c' ? q->consume_one( cf ) : q->consume_one( f ); mc_leave( );
            if ( k.op == 'C' && f.own != calls ) SEQ_BAD( "consume_one calls a copy of the functor" );
            if ( calls != (int)r ) SEQ_BAD( "consume_one returned %d but called the functor %d times", r, calls );
            got( c, r, id ); break;
        }
        case 'A': case 'D': case 'a': case 'E': case 'v': case 'V': {
            mc_forbid_alloc( 3 ); mc_log( "--- consume_all%s", k.op == 'A' || k.op == 'D' ? "" : k.op == 'a' || k.op == 'E' ? "_atomic" : "_atomic_reversed" ); size_t calls = 0; u8 ids[32];
            auto lf_ = [&]( P const& v ) { if ( calls >= 30 ) SEQ_BAD( "functor called too often" ); ids[calls++] = Pay< P >::get( v ); }; Fn< decltype( lf_ ) > f{ lf_, 0 }; auto const& cf = f;
            size_t r;
            mc_enter( );
            switch ( k.op ) {
            case 'A': r = q->consume_all( cf ); break; case 'D': r = q->consume_all( f ); break;
            case 'a': r = q->consume_all_atomic( cf ); break; case 'E': r = q->consume_all_atomic( f ); break;
            case 'v': r = q->consume_all_atomic_reversed( cf ); break; default: r = q->consume_all_atomic_reversed( f ); }
            mc_leave( );
            if ( strchr( "DEV", k.op ) && f.own != (long)calls ) SEQ_BAD( "consume_all calls a copy of the functor" );
            if ( r != calls || (int)r != m.n ) SEQ_BAD( "consume_all returned %zu, called the functor %zu times, %d elements were stored", r, calls, m.n );
            bool rev = k.op == 'v' || k.op == 'V';
            for ( size_t i = 0; i < r; i++ ) { u8 e = rev ? m.it[i] : m.it[m.n - 1 - i]; if ( ids[i] != e ) SEQ_BAD( "functor call %zu received element %u, expected %u", i, ids[i], e ); }
            m.n = 0; break;
        }
        case 's': case 'S': case 'B':      // ranged: push, unsynchronized_push, bounded_push
            if constexpr ( Ranged ) {
                u8 ids[9]; alignas( P ) char buf[9 * sizeof( P )]; P* v = (P*)buf; int rm = room( c );
                { Ctx t = c; for ( int i = 0; i < k.n; i++ ) { ids[i] = fresh( t ); t.m.add( ids[i] ); new ( v + i ) P( Pay< P >::make( ids[i] ) ); } }
                It< P > bg{ v, 0, k.n }, en{ v, k.n, k.n }, r = bg;
                bool may = Node && k.op != 'B' && ( rm < k.n || scn.fmask );
                mc_log( "--- ranged %s of %d", k.op == 's' ? "push" : k.op == 'B' ? "bounded_push" : "unsynchronized_push", k.n );
                mc_forbid_alloc( scn.fmask && may ? 0 : 2 | !may );
                mc_fault_set( scn.fmask, -1 ); bool thrown = false;
                try { mc_enter( ); r = k.op == 's' ? q->push( bg, en ) : k.op == 'B' ? q->bounded_push( bg, en ) : q->unsynchronized_push( bg, en ); mc_leave( ); }
                catch ( Fault& ) { thrown = true; mc_leave( ); }
                catch ( std::bad_alloc& ) { thrown = true; mc_leave( ); }
                int fired = mc_fault_fired( ); mc_fault_set( 0, -1 );
                if ( thrown && !fired ) mc_violation( V_EXC, "push throws without a cause" );
                if ( !thrown && fired ) mc_violation( V_EXC, "exception raised inside a ranged push does not reach the caller" );
                for ( int i = 0; i < k.n; i++ ) v[i].~P( );
                if ( thrown ) { mc_log( "    throws" ); break; }
                int want = Node && k.op != 'B' ? k.n : rm < k.n ? rm : k.n;
                mc_log( "    pushed %d", r.pos );
                if ( r.pos != want ) mc_violation( V_RESULT | V_CAP, "ranged push of %d elements pushed %d with room for %d", k.n, r.pos, rm );
                for ( int i = 0; i < want; i++ ) m.add( ids[i] );
            }
            break;
        case 'e': mc_enter( ); { bool r = q->empty( ); mc_leave( ); if ( r != ( m.n == 0 ) ) SEQ_BAD( "empty() returns %d with %d elements stored", r, m.n ); } break;
        case 'R': case 'r':
            if constexpr ( Node ) {
                mc_forbid_alloc( 2 ); mc_log( "--- reserve(%d)", k.n ); if ( scn.fmask ) mc_forbid_alloc( 0 );
                int rm = room( c );
                mc_fault_set( scn.fmask & 2, -1 ); bool thrown = false;
                try { mc_enter( ); if ( k.op == 'R' ) q->reserve( k.n ); else q->reserve_unsafe( k.n ); mc_leave( ); }
                catch ( std::bad_alloc& ) { thrown = true; mc_leave( ); }
                int fired = mc_fault_fired( ); mc_fault_set( 0, -1 );
                if ( thrown && !fired ) mc_violation( V_EXC, "reserve throws without a cause" );
                if ( !thrown && fired ) mc_violation( V_EXC, "bad_alloc does not reach the caller of reserve" );
                if ( room( c ) < rm ) mc_violation( V_CAP, "reserve lost nodes" );
                if ( !thrown && room( c ) < k.n ) mc_violation( V_ALLOC | V_CAP, "after reserve(%d) only %d nodes are free", k.n, room( c ) );
            }
            break;
        default: mc_violation( ~0u, "bad op %c", k.op );
        }
        mc_forbid_alloc( 0 );
    }
    static void got( Ctx& c, bool r, u8 id )
    {
        mc_log( "    returns %d, element %u", r, id );
        if ( r != ( c.m.n > 0 ) ) SEQ_BAD( "pop returns %d with %d elements stored", r, c.m.n );
        if ( r ) { u8 e = c.m.take_last( ); if ( id != e ) SEQ_BAD( "pop delivered element %u, expected %u", id, e ); }
    }
    static void main_( )
    {
        Ctx c; memset( &c, 0, sizeof c );
        mc_forbid_alloc( 0 ); mc_map_select( 0 );
        c.nop = ops_list( c.op );
        c.mem = mc_raw_alloc( sizeof( Q ), alignof( Q ) );
        if ( User ) { mc_forbid_heap( 1 ); mc_expect_source( scn.ctor & 1 ? 5 : 9 ); mc_exact_alignment( 1 ); }
        mc_fault_set( scn.fmask & 2, scn.fbudget );
        try {
            mc_enter( );
            if constexpr ( Cap != 0 ) { if constexpr ( User ) { if ( scn.ctor & 1 ) { if ( scn.ctor & 2 ) c.q = new ( c.mem ) Q( typename Q::allocator( 5 ) ); else c.q = new ( c.mem ) Q( UA< char >( 5 ) ); } else c.q = new ( c.mem ) Q( ); } else c.q = new ( c.mem ) Q( ); }
            else if constexpr ( User ) { if ( scn.ctor & 1 ) { if ( scn.ctor & 2 ) c.q = new ( c.mem ) Q( scn.n, typename Q::allocator( 5 ) ); else c.q = new ( c.mem ) Q( scn.n, UA< char >( 5 ) ); } else c.q = new ( c.mem ) Q( scn.n ); }
            else c.q = new ( c.mem ) Q( scn.n );
            mc_leave( );
        } catch ( std::bad_alloc& ) {
            mc_leave( ); mc_log( "    constructor throws bad_alloc" );
            if ( !mc_fault_fired( ) ) mc_violation( V_EXC, "constructor throws without a cause" );
            mc_raw_free( c.mem );
            if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory leaked by a constructor that throws", mc_live_blocks( ) );
            return;
        }
        if ( mc_fault_fired( ) ) mc_violation( V_EXC, "bad_alloc does not reach the caller of the constructor" );
        mc_fault_set( 0, -1 );
        if ( Node && !scn.fmask && (int)mc_nodes( ) < scn.n ) mc_violation( V_CAP, "constructed for %d elements but only %u nodes are there", scn.n, mc_nodes( ) );
        if ( scn.tagwrap ) {
            mc_macro( 1 );
            for ( int i = 0; i < scn.tagwrap; i++ ) { P v = Pay< P >::make( 254 ); mc_enter( ); q_push( c.q, v ); q_pop( c.q, v ); mc_leave( ); }
            mc_macro( 0 );
        }
        int maps = scn.o.mapping == 2 ? 2 : 1, depth = 0;
        for ( ;; depth++ ) {
            mc_map_select( 0 );
            int stop = mc_point( c.m.hash( ), depth );
            int cnt = 0; u8 idx[64];
            if ( !stop ) for ( int i = 0; i < c.nop; i++ ) {
                Tok k = c.op[i];
                if ( Node ) {
                    int nodes = (int)mc_nodes( );
                    if ( ( k.op == 'u' || k.op == 'U' ) && ( room( c ) == 0 || scn.fmask ) && nodes >= scn.nodelimit ) continue;
                    if ( ( k.op == 's' || k.op == 'S' ) && ( scn.fmask ? nodes + k.n > scn.nodelimit : k.n - room( c ) > scn.nodelimit - nodes ) ) continue;
                    if ( ( k.op == 'R' || k.op == 'r' ) && nodes + k.n > scn.nodelimit ) continue;
                }
                idx[cnt++] = i;
            }
            int ch = mc_choose( cnt * maps + 1 );
            if ( !ch ) break;
            ch--; mc_map_select( ch / cnt );
            do_op( c, c.op[idx[ch % cnt]] );
            if ( Tracked && mc_live_objs( ) != c.m.n ) mc_violation( V_LIFE, "%d elements alive, %d stored", mc_live_objs( ), c.m.n );
            mc_enter( ); bool e = obj( c )->empty( ); mc_leave( );
            if ( e != ( c.m.n == 0 ) ) SEQ_BAD( "empty() returns %d with %d elements stored", e, c.m.n );
        }
        mc_forbid_alloc( 1 );
        if ( maps > 1 ) mc_map_select( mc_choose( 2 ) );
        mc_log( "--- destruction" );
        mc_enter( ); obj( c )->~Q( ); mc_leave( ); mc_map_select( 0 );
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive after destruction", mc_live_objs( ) );
        mc_raw_free( c.mem );
        if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory not returned by the destructor", mc_live_blocks( ) );
    }
    static void q_push( Q* q, P& v ) { q->bounded_push( v ); }
    static void q_pop( Q* q, P& v ) { q->pop( v ); }
    static Spec spec( ) { Spec s; memset( &s, 0, sizeof s ); return s; }
};
#define BIND( name, P, N, C, U, ... ) { name, SS< P, __VA_ARGS__, N, C, U >::main_, 0, SS< P, __VA_ARGS__, N, C, U >::spec }
typedef PA< 32, true > PAq; typedef PA< 128, true > PAx;
static const Binding bindings[] = {
#ifdef DCAS
    BIND( "dcas", P1, true, 0, false, lf::stack< P1 > ),
#elif defined( PART2 )
    BIND( "nodef", PF, true, 0, false, lf::stack< PF > ),
    BIND( "fixedf", PF, false, 0, false, lf::stack< PF, lf::fixed_sized< true > > ),
    BIND( "cap2f", PF, false, 2, false, lf::stack< PF, lf::capacity< 2 > > ),
    BIND( "nodea", PAq, true, 0, true, lf::stack< PAq, lf::allocator< UA< PAq > > > ),
    BIND( "nodex", PAx, true, 0, true, lf::stack< PAx, lf::allocator< UA< char > > > ),
    BIND( "fixeda", PAx, false, 0, true, lf::stack< PAx, lf::fixed_sized< true >, lf::allocator< UA< char > > > ),
    BIND( "cap2a", P1, false, 2, true, lf::stack< P1, lf::capacity< 2 >, lf::allocator< UA< P1 > > > ),
#else
    BIND( "node", P1, true, 0, false, lf::stack< P1 > ),
    BIND( "nodet", PT, true, 0, false, lf::stack< PT, lf::fixed_sized< false > > ),
    BIND( "fixed", P1, false, 0, false, lf::stack< P1, lf::fixed_sized< true > > ),
    BIND( "fixedt", PT, false, 0, false, lf::stack< PT, lf::fixed_sized< true > > ),
    BIND( "cap1", P2, false, 1, false, lf::stack< P2, lf::capacity< 1 > > ),
    BIND( "cap2t", PT, false, 2, false, lf::stack< PT, lf::capacity< 2 > > ),
    BIND( "cap3", P1, false, 3, false, lf::stack< P1, lf::capacity< 3 > > ),
#endif
};
static const Binding* find_binding( const char* c ) { for ( auto& b : bindings ) if ( !strcmp( b.cfg, c ) ) return &b; return 0; }
int main( int ac, char** av ) { return conc_main( ac, av ); }
