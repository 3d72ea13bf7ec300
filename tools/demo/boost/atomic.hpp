// Stand-in for boost::atomic used by the demonstrations (with -DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC): every atomic
// operation is a point at which the demonstration may switch to another fiber, and carries happens-before clocks.
#pragma once
#include <atomic>
#include <cstring>
namespace demo {
inline void ( *hook )( ) = nullptr;
inline int tid = 0;                    // running fiber
inline int spurious_at = -1;           // the n-th weak compare-exchange from now on fails spuriously
struct VC { unsigned c[8]; VC( ) { std::memset( c, 0, sizeof c ); } void join( VC const& o ) { for ( int i = 0; i < 8; i++ ) if ( o.c[i] > c[i] ) c[i] = o.c[i]; } };
inline VC clk[8];
inline void pt( ) { if ( hook ) hook( ); }
inline bool acq( std::memory_order m ) { return m == std::memory_order_acquire || m == std::memory_order_consume || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
inline bool rel( std::memory_order m ) { return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst; }
}
namespace boost {
using std::memory_order; using std::memory_order_relaxed; using std::memory_order_consume; using std::memory_order_acquire;
using std::memory_order_release; using std::memory_order_acq_rel; using std::memory_order_seq_cst;
template < class T > class atomic {
    T v; 
public:
    demo::VC sync;
    atomic( ) { new ( &sync ) demo::VC( ); }
    atomic( T x ) : v( x ) { sync = demo::clk[demo::tid]; }
    atomic( atomic const& ) = delete; atomic& operator=( atomic const& ) = delete;
    bool is_lock_free( ) const { return true; }
    T load( memory_order m = memory_order_seq_cst ) const { demo::pt( ); if ( demo::acq( m ) ) demo::clk[demo::tid].join( sync ); return v; }
    void store( T x, memory_order m = memory_order_seq_cst ) { demo::pt( ); v = x; if ( demo::rel( m ) ) sync = demo::clk[demo::tid]; else sync = demo::VC( ); demo::clk[demo::tid].c[demo::tid]++; }
    T exchange( T x, memory_order m = memory_order_seq_cst ) { demo::pt( ); T o = v; v = x; rmw( m ); return o; }
    bool compare_exchange_strong( T& e, T d, memory_order m = memory_order_seq_cst ) { return cas( e, d, m, m ); }
    bool compare_exchange_strong( T& e, T d, memory_order m, memory_order f ) { return cas( e, d, m, f ); }
    bool compare_exchange_weak( T& e, T d, memory_order m = memory_order_seq_cst ) { return compare_exchange_weak( e, d, m, m ); }
    bool compare_exchange_weak( T& e, T d, memory_order m, memory_order f )
    {
        if ( demo::spurious_at >= 0 && demo::spurious_at-- == 0 ) { demo::pt( ); e = v; return false; }
        return cas( e, d, m, f );
    }
    T fetch_add( T x, memory_order m = memory_order_seq_cst ) { demo::pt( ); T o = v; v = v + x; rmw( m ); return o; }
    T fetch_sub( T x, memory_order m = memory_order_seq_cst ) { demo::pt( ); T o = v; v = v - x; rmw( m ); return o; }
    operator T( ) const { return load( ); }
    T operator=( T x ) { store( x ); return x; }
private:
    void rmw( memory_order m ) { if ( demo::acq( m ) ) demo::clk[demo::tid].join( sync ); if ( demo::rel( m ) ) sync.join( demo::clk[demo::tid] ); demo::clk[demo::tid].c[demo::tid]++; }
    bool cas( T& e, T d, memory_order m, memory_order f )
    {
        demo::pt( );
        if ( std::memcmp( &v, &e, sizeof( T ) ) ) { if ( demo::acq( f ) ) demo::clk[demo::tid].join( sync ); e = v; return false; }
        v = d; rmw( m ); return true;
    }
};
}
