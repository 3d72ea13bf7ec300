// Concurrent harness for the node pools: detail::freelist_stack and detail::fixed_size_freelist.
#ifdef DCAS
#include <boost/lockfree/detail/prefix.hpp>
#undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/throw_exception.hpp>
#include <stdexcept>
#include <boost/lockfree/detail/freelist.hpp>
#include "hconc.h"

namespace ld = boost::lockfree::detail;
static bool is_push_tok( char ) { return false; }
struct alignas( 64 ) Node { u32 link[8]; u32 owner; u32 mark; };

// the constructors of the two pools take (allocator, count); the compile-time sized one ignores the count for storage
template < class Pool, bool Node_, int Cap > struct FH {
    static Pool* q; static void* mem;
    static Node* known[16]; static int nknown;
    struct Own { Node* n[16]; u8 id[16]; int c; };
    static int cap( ) { return Cap ? Cap : scn.n; }
    static u8 idof( Node* n ) { for ( int i = 0; i < nknown; i++ ) if ( known[i] == n ) return i + 1; return 0; }

    static void take( int t, Own& o, bool bounded )
    {
        mc_invoke( K_ALLOC, 1, 0, 0 ); mc_forbid_alloc( 2 | ( bounded || !Node_ ) );
        mc_enter( );
        Node* n = bounded ? q->template construct< true, true >( ) : q->template construct< true, false >( );
        mc_leave( );
        u8 id = n ? idof( n ) : 0;
        if ( n && !id ) mc_violation( V_LIN, "pool returned something that is not a node" );
        mc_respond( n != 0, &id, n != 0 );
        if ( !n ) return;
        // scribble over the node: whatever a delayed operation reads from it must not matter
        for ( int i = 0; i < 8; i += 2 ) n->link[i] = 0xABAB0000u + t * 16 + o.c;
        n->owner = t + 1; n->mark = 0xFEED0000u + id;
        o.n[o.c] = n; o.id[o.c++] = id;
    }
    static void give( int t, Own& o, int idx )
    {
        Node* n = o.n[idx]; u8 id = o.id[idx];
        if ( n->owner != (u32)t + 1 || n->mark != 0xFEED0000u + id || n->link[0] >> 16 != 0xABAB ) mc_violation( V_LIN, "node %d was modified by somebody else while owned by thread %d", id, t );
        n->owner = 0;
        mc_invoke( K_FREE, 1, &id, 0 ); mc_forbid_alloc( 3 );
        mc_enter( ); q->template destruct< true >( n ); mc_leave( );
        mc_respond( 0, 0, 0 );
        for ( int i = idx; i + 1 < o.c; i++ ) { o.n[i] = o.n[i + 1]; o.id[i] = o.id[i + 1]; }
        o.c--;
    }
    static void op( int t, Tok k, Own& o )
    {
        switch ( k.op ) {
        case 'a': take( t, o, true ); break;
        case 'n': take( t, o, !Node_ ? false : true ); break;
        case 'f': if ( o.c ) give( t, o, 0 ); break;
        case 'F': if ( o.c ) give( t, o, o.c - 1 ); break;
        case 'W': {
            mc_macro( 1 );
            for ( int r = 0; r < k.n; r++ ) {
                Node* n[16]; int c = 0;
                mc_enter( ); while ( c < 16 && ( n[c] = q->template construct< true, true >( ) ) ) c++; mc_leave( );
                mc_enter( ); for ( int i = c; i-- > 0; ) q->template destruct< true >( n[i] ); mc_leave( );
                if ( !c ) break;
            }
            mc_macro( 0 ); break;
        }
        default: mc_violation( ~0u, "bad token %c", k.op );
        }
        mc_forbid_alloc( 0 );
    }
    static void thread( int t ) { Own o; o.c = 0; for ( int i = 0; i < scn.nth[t]; i++ ) op( t, scn.th[t][i], o ); while ( o.c ) give( t, o, 0 ); mc_forbid_alloc( 0 ); }
    static void main_( )
    {
        mc_forbid_alloc( 0 ); nknown = 0;
        mem = mc_raw_alloc( sizeof( Pool ), alignof( Pool ) );
        mc_enter( );
        q = new ( mem ) Pool( std::allocator< Node >( ), (size_t)cap( ) );
        bool lf = q->is_lock_free( ); mc_leave( );
#ifndef DCAS
        if ( !lf ) mc_violation( V_LOCKFREE, "is_lock_free() is false" );
#endif
        Node* n[17]; int c = 0;
        mc_enter( ); while ( c < 17 && ( n[c] = q->template construct< true, true >( ) ) ) c++; mc_leave( );
        if ( c != cap( ) ) mc_violation( V_CAP, "pool of %d nodes hands out %d", cap( ), c );
        for ( int i = 0; i < c; i++ ) for ( int j = 0; j < i; j++ ) if ( n[i] == n[j] ) mc_violation( V_LIN, "the same node handed out twice" );
        for ( int i = 0; i < c; i++ ) known[i] = n[i];
        nknown = c;
        for ( int i = 0; i < c; i++ ) {
            u8 id = i + 1; mc_invoke( K_FREE, 1, &id, 0 );
            mc_enter( ); q->template destruct< true >( n[i] ); mc_leave( );
            mc_respond( 0, 0, 0 );
        }
        Own o; o.c = 0;
        for ( int i = 0; i < scn.ninit; i++ ) op( MAINT, scn.init[i], o );
        mc_run_threads( );
        while ( o.c ) give( MAINT, o, 0 );
        if ( scn.nofinal ) return;
        for ( int i = 0; i <= cap( ); i++ ) take( MAINT, o, true );
        if ( o.c != cap( ) ) mc_violation( V_CAP, "after quiescence the pool hands out %d nodes, expected %d", o.c, cap( ) );
        while ( o.c ) give( MAINT, o, o.c - 1 );
        mc_forbid_alloc( 1 );
        mc_enter( ); q->~Pool( ); mc_leave( );
        mc_raw_free( mem );
        if ( mc_live_blocks( ) ) mc_violation( V_LEAK, "%u blocks of memory not returned by the destructor", mc_live_blocks( ) );
    }
    static Spec spec( ) { Spec s; memset( &s, 0, sizeof s ); s.lifo = 2; s.cap = 0xffff; return s; }
};
template < class P, bool N, int C > P* FH< P, N, C >::q;
template < class P, bool N, int C > void* FH< P, N, C >::mem;
template < class P, bool N, int C > Node* FH< P, N, C >::known[16];
template < class P, bool N, int C > int FH< P, N, C >::nknown;

#define BIND( name, N, C, ... ) { name, FH< __VA_ARGS__, N, C >::main_, FH< __VA_ARGS__, N, C >::thread, FH< __VA_ARGS__, N, C >::spec }
typedef ld::freelist_stack< Node, std::allocator< Node > > NodePool;
typedef ld::fixed_size_freelist< Node, ld::runtime_sized_freelist_storage< Node, std::allocator< Node > > > FixedPool;
template < int N > using CapPool = ld::fixed_size_freelist< Node, ld::compiletime_sized_freelist_storage< Node, N > >;
static const Binding bindings[] = {
    BIND( "node", true, 0, NodePool ),
#ifndef DCAS
    BIND( "fixed", false, 0, FixedPool ),
    BIND( "cap1", false, 1, CapPool< 1 > ),
    BIND( "cap2", false, 2, CapPool< 2 > ),
    BIND( "cap3", false, 3, CapPool< 3 > ),
#endif
};
static const Binding* find_binding( const char* c ) { for ( auto& b : bindings ) if ( !strcmp( b.cfg, c ) ) return &b; return 0; }
int main( int ac, char** av ) { return conc_main( ac, av ); }
