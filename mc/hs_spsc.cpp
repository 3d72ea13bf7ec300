// Sequence-mode harness for boost::lockfree::spsc_queue.
#include <boost/lockfree/spsc_queue.hpp>
#include "hseq.h"

namespace lf = boost::lockfree;
static bool is_push_tok( char c ) { return false; }

// output iterator into a bounded buffer
template < class P > struct OutIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    u8* ids; int* n; int pos = 0;      // position kept in the iterator, as in a pointer; n: elements written, in order and once each
    struct Ref { u8* ids; int* n; int pos; Ref& operator=( P const& v ) { if ( pos >= 30 || pos != *n ) SEQ_BAD( "output iterator written at position %d after %d elements", pos, *n ); ids[pos] = Pay< P >::get( v ); *n = pos + 1; return *this; } };
    Ref operator*( ) { return Ref{ ids, n, pos }; }
    OutIt& operator++( ) { ++pos; return *this; }
    OutIt operator++( int ) { OutIt o = *this; ++pos; return o; }
};
// Mode: 0 default allocator, 1 user allocator, 2 offset-pointer allocator
template < class P, class Q, int Cap, int Mode > struct RS {
    static const bool Tracked = std::is_same< P, PT >::value || std::is_same< P, PF >::value;
    struct Ctx { Q* q; void* mem; Model m; Tok op[64]; int nop; int next; };
    static Q* obj( Ctx& c ) { return (Q*)( (char*)c.q + ( mc_mapping( ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 ) ); }
    static int cap( ) { return Cap ? Cap : scn.n; }
    static int M( ) { return 2 * cap( ) + 3; }
    static u8 id_at( Ctx& c, int i ) { return ( c.next + i ) % M( ) + 1; }

    template < int N > static size_t push_arr( Q* q, P* v ) { return q->push( *(P( * )[N])v ); }
    template < int N > static size_t pop_arr( Q* q, P* v ) { return q->pop( *(P( * )[N])v ); }
    static void expect( Ctx& c, const char* what, int got, const u8* ids, int want )
    {
        if ( got != want ) SEQ_BAD( "%s transferred %d elements, expected %d (%d stored, capacity %d)", what, got, want, c.m.n, cap( ) );
        for ( int i = 0; i < got; i++ ) { u8 e = c.m.take_first( ); if ( ids[i] != e ) SEQ_BAD( "%s: element %d is %u, expected %u", what, i, ids[i], e ); }
    }
    static void do_op( Ctx& c, Tok k )
    {
        Q* q = obj( c ); Model& m = c.m; int room = cap( ) - m.n;
        mc_forbid_alloc( 3 ); mc_copies( 1 );
        switch ( k.op ) {
        case 'u': case 'U': case 'I': case 'a': {
            int n = k.op == 'u' ? 1 : k.n;
            alignas( P ) char buf[24 * sizeof( P )]; P* v = (P*)buf;
            for ( int i = 0; i < n; i++ ) new ( v + i ) P( Pay< P >::make( id_at( c, i ) ) );
            mc_log( "--- push %d (%s)", n, k.op == 'u' ? "single" : k.op == 'U' ? "pointer" : k.op == 'a' ? "array" : "range" );
            mc_fault_set( scn.fmask & 1, -1 ); bool thrown = false; int r = 0;
            try { mc_enter( );
                if ( k.op == 'u' ) r = q->push( v[0] );
                else if ( k.op == 'U' ) r = (int)q->push( v, (size_t)n );
                else if ( k.op == 'a' ) r = n == 1 ? push_arr< 1 >( q, v ) : n == 2 ? push_arr< 2 >( q, v ) : push_arr< 3 >( q, v );
                else { It< P > b{ v, 0, n }, e{ v, n, n }; It< P > x = q->push( b, e ); if ( x.base != v || x.n != n ) SEQ_BAD( "ranged push returned a foreign iterator" ); r = x.pos; }
                mc_leave( ); }
            catch ( Fault& ) { thrown = true; mc_leave( ); }
            int fired = mc_fault_fired( ); mc_fault_set( 0, -1 );
            if ( thrown && !fired ) mc_violation( V_EXC, "push throws without a cause" );
            if ( !thrown && fired ) mc_violation( V_EXC, "exception raised inside push does not reach the caller" );
            if ( !thrown ) for ( int i = 0; i < n; i++ ) if ( Pay< P >::get( v[i] ) != id_at( c, i ) ) SEQ_BAD( "push changed its input" );
            for ( int i = 0; i < n; i++ ) v[i].~P( );
            if ( thrown ) { mc_log( "    throws" ); break; }
            int want = n < room ? n : room;
            mc_log( "    pushed %d", r );
            if ( r != want ) mc_violation( V_RESULT | V_CAP, "push of %d elements pushed %d with room for %d", n, r, room );
            for ( int i = 0; i < r; i++ ) m.add( id_at( c, i ) );
            c.next = ( c.next + r ) % M( );
            break;
        }
        case 'p': {
            P v = Pay< P >::make( 255 ); mc_log( "--- pop" );
            mc_enter( ); bool r = q->pop( v ); mc_leave( );
            u8 id = Pay< P >::get( v ); if ( !r && id != 255 ) SEQ_BAD( "failed pop changed its argument" );
            expect( c, "pop", r, &id, m.n > 0 ); break;
        }
        case 'x': {
            Out< P > o; o.id = 200; mc_log( "--- pop into a convertible type" );
            mc_enter( ); bool r = q->pop( o ); mc_leave( );
            if ( !r && o.id != 200 ) SEQ_BAD( "failed pop changed its argument" );
            expect( c, "pop", r, &o.id, m.n > 0 ); break;
        }
        case 'd': {
            mc_log( "--- pop (discard)" );
            mc_enter( ); bool r = q->pop( ); mc_leave( );
            if ( r != ( m.n > 0 ) ) SEQ_BAD( "pop returns %d with %d elements stored", r, m.n );
            if ( r ) m.take_first( ); break;
        }
        case 'P': case 'b': {
            int n = k.n; alignas( P ) char buf[24 * sizeof( P )]; P* v = (P*)buf; u8 ids[24]; mc_log( "--- pop %d", n );
            for ( int i = 0; i < n; i++ ) new ( v + i ) P( Pay< P >::make( 255 ) );
            mc_enter( );
            int r = k.op == 'P' ? (int)q->pop( v, (size_t)n ) : n == 1 ? pop_arr< 1 >( q, v ) : n == 2 ? pop_arr< 2 >( q, v ) : pop_arr< 3 >( q, v );
            mc_leave( );
            for ( int i = 0; i < n; i++ ) { ids[i] = Pay< P >::get( v[i] ); if ( i >= r && ids[i] != 255 ) SEQ_BAD( "pop wrote beyond the %d elements it reports", r ); }
            for ( int i = 0; i < n; i++ ) v[i].~P( );
            expect( c, "pop", r, ids, n < m.n ? n : m.n ); break;
        }
        case 'O': {
            u8 ids[32]; int cnt = 0; mc_log( "--- pop to an output iterator" );
            mc_enter( ); int r = (int)q->pop( OutIt< P >{ ids, &cnt } ); mc_leave( );
            if ( r != cnt ) SEQ_BAD( "pop returns %d but wrote %d elements", r, cnt );
            expect( c, "pop", r, ids, m.n ); break;
        }
        case 'c': case 'C': case 'A': case 'D': {
            u8 ids[32]; int calls = 0; mc_log( "--- consume_%s", k.op == 'A' || k.op == 'D' ? "all" : "one" );
            auto lf_ = [&]( P const& v ) { if ( calls >= 30 ) SEQ_BAD( "functor called too often" ); ids[calls++] = Pay< P >::get( v ); }; Fn< decltype( lf_ ) > f{ lf_, 0 }; auto const& cf = f;
            mc_enter( ); int r = k.op == 'c' ? q->consume_one( cf ) : k.op == 'C' ? q->consume_one( f ) : k.op == 'A' ? (int)q->consume_all( cf ) : (int)q->consume_all( f ); mc_leave( );
            if ( ( k.op == 'C' || k.op == 'D' ) && f.own != calls ) SEQ_BAD( "consume calls a copy of the functor" );
            if ( r != calls ) SEQ_BAD( "consume returns %d but called the functor %d times", r, calls );
            expect( c, "consume", r, ids, k.op == 'c' || k.op == 'C' ? m.n > 0 : m.n ); break;
        }
        case 'Z': mc_log( "--- reset" ); mc_enter( ); q->reset( ); mc_leave( ); m.n = 0; break;
        default: mc_violation( ~0u, "bad op %c", k.op );
        }
        // copying: linear in the number of elements the operation may transfer
        int most = strchr( "UIaPb", k.op ) ? ( k.n < cap( ) ? k.n : cap( ) ) : strchr( "OADZ", k.op ) ? cap( ) : 1;
        if ( (int)mc_copies( 0 ) > 3 * most ) mc_violation( V_WAITFREE, "%u element copies made by an operation that transfers at most %d elements", mc_copies( 0 ), most );
        mc_forbid_alloc( 0 );
    }
    static void observe( Ctx& c )
    {
        Q* q = obj( c ); const Q* cq = q; Model& m = c.m;
        mc_forbid_alloc( 3 ); mc_enter( );
        size_t r = q->read_available( ), w = q->write_available( ); bool e = q->empty( ); bool l = q->is_lock_free( );
        mc_leave( );
        if ( (int)r != m.n ) mc_violation( V_RESULT | V_CAP, "read_available() returns %zu with %d elements stored", r, m.n );
        if ( (int)w != cap( ) - m.n ) mc_violation( V_RESULT | V_CAP, "write_available() returns %zu with %d of %d elements stored", w, m.n, cap( ) );
        if ( e != ( m.n == 0 ) ) SEQ_BAD( "empty() returns %d with %d elements stored", e, m.n );
        if ( !l ) SEQ_BAD( "is_lock_free() is false" );
        if ( m.n ) {
            mc_enter( ); P& f = q->front( ); P const& g = cq->front( ); mc_leave( );
            if ( &f != &g ) SEQ_BAD( "const and non-const front() differ" );
            mc_enter( ); u8 id = Pay< P >::get( f ); mc_leave( );
            if ( id != m.it[0] ) SEQ_BAD( "front() is element %u, expected %u", id, m.it[0] );
        }
        if ( Tracked && mc_live_objs( ) != m.n ) mc_violation( V_LIFE, "%d elements alive, %d stored", mc_live_objs( ), m.n );
        mc_forbid_alloc( 0 );
    }
    static void main_( )
    {
        Ctx c; memset( &c, 0, sizeof c );
        mc_forbid_alloc( 0 ); mc_map_select( 0 );
        c.nop = ops_list( c.op );
        c.mem = mc_raw_alloc( sizeof( Q ), alignof( Q ) );
        if ( Mode ) { mc_forbid_heap( 1 ); mc_expect_source( scn.ctor & 1 ? 5 : 9 ); mc_exact_alignment( 1 ); }
        int maps = scn.o.mapping == 2 ? 2 : 1, depth = 0;
        mc_fault_set( scn.fmask & 2, scn.fbudget );
        try {
            if ( maps > 1 ) mc_map_select( mc_choose( 2 ) );
            mc_enter( );
            void* mem = (char*)c.mem + ( mc_mapping( ) ? mc_arena_base( 1 ) - mc_arena_base( 0 ) : 0 );
            if constexpr ( Cap != 0 ) new ( mem ) Q( );
            else if constexpr ( Mode != 0 ) { if ( scn.ctor & 1 ) { if ( scn.ctor & 2 ) new ( mem ) Q( (size_t)scn.n, typename Q::allocator( 5 ) ); else new ( mem ) Q( (size_t)scn.n, typename std::allocator_traits< typename Q::allocator >::template rebind_alloc< char >( 5 ) ); } else new ( mem ) Q( (size_t)scn.n ); }
            else new ( mem ) Q( (size_t)scn.n );
            mc_leave( ); c.q = (Q*)c.mem; mc_map_select( 0 );
        } catch ( std::bad_alloc& ) {
            mc_leave( ); mc_map_select( 0 ); mc_log( "    constructor throws bad_alloc" );
            if ( !mc_fault_fired( ) ) mc_violation( V_EXC, "constructor throws without a cause" );
            mc_raw_free( c.mem );
            if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory leaked by a constructor that throws", mc_live_blocks( ) );
            return;
        }
        if ( mc_fault_fired( ) ) mc_violation( V_EXC, "bad_alloc does not reach the caller of the constructor" );
        mc_fault_set( 0, -1 );
        for ( ;; depth++ ) {
            mc_map_select( 0 );
            int stop = mc_point( c.m.hash( ) * 31 + c.next, depth );
            int cnt = stop ? 0 : c.nop;
            int ch = mc_choose( cnt * maps + 1 );
            if ( !ch ) break;
            ch--; mc_map_select( ch / cnt );
            do_op( c, c.op[ch % cnt] );
            if ( maps > 1 ) mc_map_select( !mc_mapping( ) );
            observe( c );
        }
        mc_forbid_alloc( 1 );
        if ( maps > 1 ) mc_map_select( mc_choose( 2 ) );
        mc_log( "--- destruction" );
        mc_enter( ); obj( c )->~Q( ); mc_leave( ); mc_map_select( 0 );
        if ( mc_live_objs( ) ) mc_violation( V_LIFE, "%d elements alive after destruction", mc_live_objs( ) );
        mc_raw_free( c.mem );
        if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory not returned by the destructor", mc_live_blocks( ) );
    }
    static Spec spec( ) { Spec s; memset( &s, 0, sizeof s ); return s; }
};
#define BIND( name, P, C, U, ... ) { name, RS< P, __VA_ARGS__, C, U >::main_, 0, RS< P, __VA_ARGS__, C, U >::spec }
typedef PA< 32, true > PAq; typedef PA< 128, false > PAx;
static const Binding bindings[] = {
#if defined( PART2 )
    BIND( "runf", PF, 0, 0, lf::spsc_queue< PF > ),
    BIND( "cap2f", PF, 2, 0, lf::spsc_queue< PF, lf::capacity< 2 > > ),
    BIND( "cap3f", PF, 3, 0, lf::spsc_queue< PF, lf::capacity< 3 > > ),
    BIND( "runa", PAq, 0, 1, lf::spsc_queue< PAq, lf::allocator< UA< PAq > > > ),
    BIND( "runx", PAx, 0, 1, lf::spsc_queue< PAx, lf::allocator< UA< char > > > ),
    BIND( "runo", P1, 0, 2, lf::spsc_queue< P1, lf::allocator< OA< P1 > > > ),
    BIND( "runot", PT, 0, 2, lf::spsc_queue< PT, lf::allocator< OA< char > > > ),
#else
    BIND( "run", P1, 0, 0, lf::spsc_queue< P1 > ),
    BIND( "run2", P2, 0, 0, lf::spsc_queue< P2 > ),
    BIND( "runt", PT, 0, 0, lf::spsc_queue< PT > ),
    BIND( "cap1", P1, 1, 0, lf::spsc_queue< P1, lf::capacity< 1 > > ),
    BIND( "cap2", P1, 2, 0, lf::spsc_queue< P1, lf::capacity< 2 > > ),
    BIND( "cap3", P2, 3, 0, lf::spsc_queue< P2, lf::capacity< 3 > > ),
    BIND( "cap1t", PT, 1, 0, lf::spsc_queue< PT, lf::capacity< 1 > > ),
    BIND( "cap2t", PT, 2, 0, lf::spsc_queue< PT, lf::capacity< 2 > > ),
    BIND( "cap3t", PT, 3, 0, lf::spsc_queue< PT, lf::capacity< 3 > > ),
    BIND( "cap4t", PT, 4, 0, lf::spsc_queue< PT, lf::capacity< 4 > > ),
    BIND( "cap7", P1, 7, 0, lf::spsc_queue< P1, lf::capacity< 7 > > ),
#endif
};
static const Binding* find_binding( const char* c ) { for ( auto& b : bindings ) if ( !strcmp( b.cfg, c ) ) return &b; return 0; }
int main( int ac, char** av ) { return conc_main( ac, av ); }
