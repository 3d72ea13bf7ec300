// Enumerates the state space of tagged references: every version value with every reference of the set below, every
// setter from every such state.
#ifdef DCAS
#include <boost/lockfree/detail/prefix.hpp>
#undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/lockfree/detail/atomic.hpp>
#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
#include "native.h"
#include <new>
#include <type_traits>
#include <vector>
namespace d = boost::lockfree::detail;
struct alignas( 64 ) Node { char c[64]; };
typedef d::tagged_ptr< Node > TP;
typedef d::tagged_index TI;

struct PtrOps {
    typedef TP R; typedef TP::tag_t tag_t;
    static R make( u64 r, tag_t t ) { return R( (Node*)r, t ); }
    static u64 ref( R const& x ) { return (u64)x.get_ptr( ); }
    static void setref( R& x, u64 r ) { x.set_ptr( (Node*)r ); }
    static void both( R& x, u64 r, tag_t t ) { x.set( (Node*)r, t ); }
    static void extra( R const& x, u64 r ) {
        if ( (bool)x != ( r != 0 ) ) nviol( "conversion to bool wrong for reference 0x%llx", (unsigned long long)r );
        if ( r && ( &*x != (Node*)r || x.operator->( ) != (Node*)r ) ) nviol( "dereferencing yields a different reference than 0x%llx", (unsigned long long)r );
    }
};
struct IdxOps {
    typedef TI R; typedef TI::tag_t tag_t;
    static R make( u64 r, tag_t t ) { return R( (TI::index_t)r, t ); }
    static u64 ref( R const& x ) { return x.get_index( ); }
    static void setref( R& x, u64 r ) { x.set_index( (TI::index_t)r ); }
    static void both( R& x, u64 r, tag_t t ) { x = R( (TI::index_t)r, t ); }
    static void extra( R const&, u64 ) {}
};
static std::vector< u64 > ptr_refs( int pairs )
{
    int top = 48;
#ifdef DCAS
    top = 64;
#endif
    std::vector< u64 > v{ 0 };
    for ( int i = 6; i < top; i++ ) {
        v.push_back( 1ull << i );
        v.push_back( ( ( i == 63 ? ~0ull : ( 1ull << ( i + 1 ) ) - 1 ) ) & ~63ull );                 // all ones up to bit i
        v.push_back( ( top == 64 ? ~0ull : ( 1ull << top ) - 1 ) & ~63ull & ~( 1ull << i ) );        // all ones except bit i
        if ( pairs ) for ( int j = i + 1; j < top; j++ ) v.push_back( 1ull << i | 1ull << j );
    }
    return v;
}
template < class O > static void check( typename O::R const& x, u64 r, typename O::tag_t t, const char* how )
{
    if ( O::ref( x ) != r || x.get_tag( ) != t )
        nviol( "%s: expected reference 0x%llx version %llu, found reference 0x%llx version %llu", how, (unsigned long long)r, (unsigned long long)t, (unsigned long long)O::ref( x ), (unsigned long long)x.get_tag( ) );
    if ( x.get_next_tag( ) != (typename O::tag_t)( t + 1 ) ) nviol( "successor of version %llu is %llu", (unsigned long long)t, (unsigned long long)x.get_next_tag( ) );
}
// all transitions out of the state (r, t)
template < class O > static void state( u64 r, typename O::tag_t t, const u64* others, int no, bool atomics )
{
    typedef typename O::R R; typedef typename O::tag_t tag_t;
    R x = O::make( r, t ); check< O >( x, r, t, "construction" ); O::extra( x, r );
    n_states++;
    const tag_t ts[] = { 0, 1, (tag_t)( t + 1 ), (tag_t)( t - 1 ), (tag_t)~t, (tag_t)~(tag_t)0, (tag_t)( (tag_t)~(tag_t)0 / 2 + 1 ) };
    for ( int i = 0; i < no; i++ ) {
        R y = x; O::setref( y, others[i] ); check< O >( y, others[i], t, "setting the reference" );
        if ( ( y == x ) != ( others[i] == r ) || ( y != x ) == ( others[i] == r ) ) nviol( "equality of 0x%llx/%llu and 0x%llx/%llu wrong", (unsigned long long)r, (unsigned long long)t, (unsigned long long)others[i], (unsigned long long)t );
        O::setref( y, r ); check< O >( y, r, t, "setting the reference back" );
        if ( !( y == x ) ) nviol( "equal references compare unequal" );
        n_trans += 2;
    }
    for ( tag_t u : ts ) {
        R y = x; y.set_tag( u ); check< O >( y, r, u, "setting the version" );
        if ( ( y == x ) != ( u == t ) || ( y != x ) == ( u == t ) ) nviol( "equality of 0x%llx/%llu and 0x%llx/%llu wrong", (unsigned long long)r, (unsigned long long)t, (unsigned long long)r, (unsigned long long)u );
        O::both( y, others[0], t ); check< O >( y, others[0], t, "setting both" );
        O::both( y, r, u ); check< O >( y, r, u, "setting both" );
        n_trans += 3;
        if ( atomics ) {     // the atomic compare-exchange distinguishes exactly what == distinguishes
            alignas( 64 ) char m1[sizeof( R )], m2[sizeof( R )]; memset( m1, 0x55, sizeof m1 ); memset( m2, 0xAA, sizeof m2 );
            R* a = new ( m1 ) R( x ); R* b = new ( m2 ) R; *b = O::make( others[0], 0 ); O::setref( *b, r ); b->set_tag( u );
            d::atomic< R > at( *a ); R e = *b; bool ok = at.compare_exchange_strong( e, O::make( others[0], u ) );
            if ( ok != ( u == t ) ) nviol( "compare-exchange on 0x%llx/%llu with expected 0x%llx/%llu: %s", (unsigned long long)r, (unsigned long long)t, (unsigned long long)r, (unsigned long long)u, ok ? "succeeds" : "fails" );
            check< O >( at.load( ), ok ? others[0] : r, ok ? u : t, "after compare-exchange" );
            if ( !ok ) check< O >( e, r, t, "expected value after failed compare-exchange" );
            n_trans++;
        }
    }
}
template < class O > static void orbit( u64 r )
{
    typedef typename O::tag_t tag_t;
    static_assert( std::is_unsigned< tag_t >::value && sizeof( tag_t ) >= 2, "version type has at least 2^16 values" );
    std::vector< bool > seen( 65536, false );
    typename O::R x = O::make( r, 0 ); u64 n = 0;
    while ( n < 65536 ) {
        tag_t t = x.get_tag( );
        if ( t < 65536 ) { if ( seen[t] ) nviol( "version %llu comes again after %llu steps", (unsigned long long)t, (unsigned long long)n ); seen[t] = true; }
        if ( O::ref( x ) != r ) nviol( "reference changed while counting versions" );
        x.set_tag( x.get_next_tag( ) ); n++; n_trans++;
    }
    typename O::R m = O::make( r, (tag_t)~(tag_t)0 );
    if ( m.get_next_tag( ) != 0 ) nviol( "successor of the largest version is %llu", (unsigned long long)m.get_next_tag( ) );
    n_term++;
}
static void run_line( const char* line )
{
    n_kind = 32768;
    const char* rep = arg( line, "rep" ); u64 lo = argn( line, "lo" ), hi = argn( line, "hi" );
    if ( !strcmp( rep, "ptr" ) ) {
        auto v = ptr_refs( argn( line, "pairs" ) );
        const u64 others[] = { 1ull << 12, 0, ( ( 1ull << 48 ) - 1 ) & ~63ull, 1ull << 47, 64 };
        for ( u64 i = lo; i < hi && i < v.size( ); i++ ) {
            for ( u64 t = 0; t < 65536; t++ ) {
                state< PtrOps >( v[i], (TP::tag_t)t, others, 5, ( t & 63 ) < 2 );
                if ( sizeof( TP::tag_t ) > 2 ) {
                    int b = t & 63; u64 off = ( t >> 6 ) - 512; state< PtrOps >( v[i], (TP::tag_t)( ( 1ull << b ) + off ), others, 5, false );
                }
            }
            orbit< PtrOps >( v[i] );
        }
    } else {
        const u64 others[] = { 0x00ff, 0, 65535, 0x8000, 1 };
        for ( u64 i = lo; i < hi && i < 65536; i++ ) {
            bool full = argn( line, "full" );
            for ( u64 t = 0; t < 65536; t++ )
                if ( full || ( i & 255 ) < 3 || ( t & 255 ) < 3 || ( i & 255 ) == 255 ) state< IdxOps >( i, (TI::tag_t)t, others, 5, ( ( i ^ t ) & 255 ) == 0 );
                else { TI x( (TI::index_t)i, (TI::tag_t)t ); check< IdxOps >( x, i, (TI::tag_t)t, "construction" ); TI y; y = TI( (TI::index_t)~i, (TI::tag_t)t ); y.set_index( (TI::index_t)i ); check< IdxOps >( y, i, (TI::tag_t)t, "setting the reference" ); if ( !( x == y ) ) nviol( "equal references compare unequal" ); n_states++; n_trans++; }
            orbit< IdxOps >( i );
        }
    }
}
