// Fibers for the demonstrations: run(programs, schedule) runs program i for n atomic operations at a time.
#pragma once
#include "boost/atomic.hpp"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <ucontext.h>
#include <utility>
#include <vector>
namespace demo {
typedef std::vector< std::pair< int, int > > Schedule;
inline ucontext_t mainctx; inline ucontext_t ctx[8]; inline bool finished[8]; inline std::function< void( ) > prog[8];
inline int budget; inline bool in_fiber; inline long steps;
inline void trampoline( ) { prog[tid]( ); finished[tid] = true; in_fiber = false; swapcontext( &ctx[tid], &mainctx ); }
inline void fiber_hook( ) { if ( !in_fiber ) return; if ( budget-- <= 0 ) { int t = tid; in_fiber = false; swapcontext( &ctx[t], &mainctx ); } if ( ++steps > 200000 ) { std::printf( "FAIL: endless loop\n" ); std::fflush( stdout ); std::_Exit( 1 ); } }
inline void resume( int t, int n ) { if ( finished[t] ) return; budget = n; tid = t; in_fiber = true; swapcontext( &mainctx, &ctx[t] ); in_fiber = false; tid = 7; }
// fibers are numbered from 0; the caller is fiber 7
inline void run( std::vector< std::function< void( ) > > const& p, Schedule const& s )
{
    static std::vector< char > stk[8];
    hook = fiber_hook; steps = 0; tid = 7; clk[7].c[7]++;
    for ( size_t i = 0; i < p.size( ); i++ ) {
        prog[i] = p[i]; finished[i] = false; stk[i].resize( 1 << 16 ); clk[i] = clk[7]; clk[i].c[i]++;
        getcontext( &ctx[i] ); ctx[i].uc_stack.ss_sp = stk[i].data( ); ctx[i].uc_stack.ss_size = stk[i].size( ); ctx[i].uc_link = 0;
        makecontext( &ctx[i], trampoline, 0 );
    }
    for ( auto& e : s ) resume( e.first, e.second );
    for ( size_t i = 0; i < p.size( ); i++ ) resume( (int)i, 1 << 28 );
    tid = 7; for ( size_t i = 0; i < p.size( ); i++ ) clk[7].join( clk[i] );
    hook = nullptr;
}
inline void fail( const char* m ) { std::printf( "FAIL: %s\n", m ); std::fflush( stdout ); std::_Exit( 1 ); }
inline void require( bool b, const char* m ) { if ( !b ) fail( m ); }
// element that reports happens-before races between its construction / destruction and its reads
struct Tracked {
    int v; mutable unsigned magic;
    static void race( ) { fail( "data race on an element" ); }
};
}
