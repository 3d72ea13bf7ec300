// Model-checking runtime: implements the __tsan_* interface that clang -fsanitize=thread emits calls to, a cooperative
// scheduler, an arena, an on-the-fly linearizability monitor, an operational C++ memory model and a stateful
// depth-first explorer. Uninstrumented. See DESIGN.md section 3.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>

#define likely( x ) __builtin_expect( !!( x ), 1 )
#define unlikely( x ) __builtin_expect( !!( x ), 0 )

// ------------------------------------------------------------------------------------------------ layout
static const u64 MAP_A = 0x100000000000ull, MAP_B = 0x200000000000ull;
static const u32 SEG = 0x4000;                          // bytes per thread segment
static const u32 MSEG = 0x10000;                        // main segment (objects, set-up allocations)
static const u32 ARENA = SEG * 4 + MSEG;
static const u32 NXG = 64;                              // extra granules: writable data of the executable
static const u32 NGR = ARENA / 4 + NXG * 2;             // 4-byte granules
static const u32 STK = 0x10000;
enum { MAXCONF = 1024, MAXTRACE = 200000, MAXBLK = 128, MAXEV = 2000,
#ifdef MC_BIG
    NG = 224, NPR = 80 };
#else
    NG = 96, NPR = 24 };
#endif

struct OpDesc { u8 kind, n, bounded, alloc; u16 cap; u16 nodes_at_alloc; u8 vals[8]; };
struct Pend { u8 st, maxp, minsz, held; u32 pad; u64 res; };
#ifdef MC_BIG
enum { MAXIT = 79 };
#else
enum { MAXIT = 23 };
#endif
struct Config { u8 n; u8 it[MAXIT]; Pend p[MAXT]; };

enum { ST_UNBORN, ST_READY, ST_DONE };
struct Thr {
    void* sp;
    u8 state, op, inv, inlib;          // inv: 0 none, 1 announced, 2 recorded
    u8 forbid, weaknext, spur, mid;    // mid: inside an operation that has been recorded
    u8 noyield, pad_[7];               // inside a macro step: no scheduling points, no step limits
    u32 steps, atoms, acc;
    u64 local;
    OpDesc d;
    u64 spurval[2];
    u64 exg[2];                        // __cxa_eh_globals
    u64 psz; u64 pend_addr; u8 pkind, pmo;
    u64 outcome;
};
struct Block { u32 off, size; u32 who; u8 live; };
typedef u8 View[NG];
struct Ev { u8 tid, rel, idx, pad; u16 prev; u8 val[16]; u16 mvc[MAXT]; View mv; };
struct PRead { u32 gi; u16 clk; u8 id, part, bad; };          // an element value read by the operation in progress
struct WThr { View V, acqV, relV; u16 vc[MAXT], acqvc[MAXT], relvc[MAXT]; u8 npr; u8 lastpop[MAXT]; PRead pr[NPR]; };
struct Weak { WThr t[MAXT]; u16 last[NG]; View sc, scf; u16 nev; u64 ann[4], acc[4], ref[4], popped[4]; u8 by[256]; };
struct Race { u16 wclk; u8 wtid; u8 pad; u16 r[MAXT]; };   // per 4-byte granule: last plain write, reads of delivered elements

struct Exec {
    Thr t[MAXT];
    u64 memhash, lifehash, xhash;
    u32 brk[MAXT];
    u8  cur, phase, req, nthreads;
    u8  preempt, spur_used, stale_used, choice_n;
    u32 nblk, ntrace, nconf, nodes, liveblk;
    u8  lastrun, xused; u8 choice_ans, choice_kind;
    int lifecount; u32 copies;
    u32 tag;
    u64 point_extra; u16 point_cost, must_stop; u8 mapsel, fmask, fbudget, ffired; int exlive; u32 expect_who; u32 misalign;
};
enum { PH_SETUP, PH_CONC, PH_FINAL };
enum { RQ_NONE, RQ_START, RQ_SCHED, RQ_CHOICE, RQ_DONE, RQ_END, RQ_VIOL, RQ_POINT };
enum { CH_USER, CH_SPUR, CH_READ };

struct G {
    Exec EX;
    Block blk[MAXBLK];
    u8 trace[MAXTRACE];
    Config conf[MAXCONF];
    Weak W;
    Ev ev[MAXEV];
    u8 live[ARENA / 4];
    u8 life[ARENA / 4];
    u32 shadow[NGR];
    Race race[ARENA / 4];
    u8 tls[MAXT][512];
    u64 xval[NXG];                      // values of extra granules (8 byte units)
};
static G* g;
#define E ( g->EX )
#define CUR ( E.t[E.cur] )

static char* arena;       // mapping A
static char* arenaB;
static char* stacks;
static char* emerg;
static Options O;
static Spec S;
static const Harness* H;
const char* mc_scenario_text = "";

// persistent over executions of one exploration
static u8 rmask[NGR], wmask[NGR], vis[NGR];
static bool newvis;
static u64 xaddr[NXG]; static u64 xorig[NXG]; static u32 nx;       // extra granules (8 byte)
static u16 gidmap[NGR]; static u32 ngid; static u32 gidaddr[NG];
static bool verbose, replaying, exploring;
static u64 progress;
static u32 g_maxsteps, g_maxatoms;
static char violmsg[1024]; static u32 violkind;
static u64 dlo, dhi;   // writable data of the executable
static char* tlsptr; static size_t tlssz;
static volatile int on_fiber = -1;
static bool need_clear;

static inline u64 mix( u64 a )
{
    a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31; return a;
}
static inline u64 mix2( u64 a, u64 b ) { return mix( a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull ); }

extern "C" void* __libc_malloc( size_t ); extern "C" void __libc_free( void* );
extern "C" void* __libc_calloc( size_t, size_t ); extern "C" void* __libc_realloc( void*, size_t );
extern "C" void* __libc_memalign( size_t, size_t );

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void mc_switch( void** save, void* to );
asm( ".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
     "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
     "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
     "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size mc_switch,.-mc_switch\n" );
static void* explorer_sp;

static void fiber_main( void );
static char* stack_top( int t ) { return stacks + ( t + 1 ) * STK; }
static void fiber_init( int t )
{
    u64* sp = (u64*)( stack_top( t ) - 64 );
    *--sp = 0;                    // return address of fiber_main (alignment)
    *--sp = (u64)fiber_main;
    for ( int i = 0; i < 6; i++ ) *--sp = 0;
    E.t[t].sp = sp;
}
static void run_fiber( int t )
{
    E.cur = t; E.req = RQ_NONE;
    if ( tlssz ) memcpy( tlsptr, g->tls[t], tlssz );
    u64* eg = (u64*)abi::__cxa_get_globals( );
    u64 s0 = eg[0], s1 = eg[1];
    eg[0] = E.t[t].exg[0]; eg[1] = E.t[t].exg[1];
    on_fiber = t;
    mc_switch( &explorer_sp, E.t[t].sp );
    on_fiber = -1;
    E.t[t].exg[0] = eg[0]; E.t[t].exg[1] = eg[1];
    eg[0] = s0; eg[1] = s1;
    if ( tlssz ) memcpy( g->tls[t], tlsptr, tlssz );
}
static void to_explorer( int req )
{
    E.req = req;
    mc_switch( &CUR.sp, explorer_sp );
}
static void fiber_main( void )
{
    if ( E.cur == MAINT ) { H->main_fn( ); to_explorer( RQ_END ); }
    else { H->thread_fn( E.cur ); to_explorer( RQ_DONE ); }
    abort( );
}

// ------------------------------------------------------------------------------------------------ violations
extern "C" void mc_log( const char* fmt, ... )
{
    if ( !verbose || ( on_fiber >= 0 && g->EX.t[g->EX.cur].noyield ) ) return;
    va_list ap; va_start( ap, fmt );
    if ( on_fiber == MAINT || on_fiber < 0 ) printf( "    main  " ); else printf( "    T%d    ", on_fiber );
    vprintf( fmt, ap ); printf( "\n" ); va_end( ap );
}
extern "C" void mc_violation( u32 kind, const char* fmt, ... )
{
    va_list ap; va_start( ap, fmt );
    vsnprintf( violmsg, sizeof violmsg, fmt, ap ); va_end( ap );
    violkind = kind;
    if ( on_fiber < 0 ) { printf( "INTERNAL violation outside fiber: %s\n", violmsg ); fflush( stdout ); _exit( 3 ); }
    to_explorer( RQ_VIOL );
    abort( );
}
static void internal( const char* m ) { printf( "INTERNAL %s [%s]\n", m, mc_scenario_text ); fflush( stdout ); _exit( 3 ); }
extern "C" void __assert_fail( const char* a, const char* f, unsigned l, const char* fn ) throw( )
{
    if ( on_fiber >= 0 ) mc_violation( V_ASSERT, "assertion failed: %s (%s:%u)", a, f, l );
    fprintf( stderr, "assert %s %s:%u\n", a, f, l ); _exit( 3 );
}
static char crashmsg[128];
static void die_tramp( ) { mc_violation( violkind, "%s", crashmsg ); }
static void hijack( void* uc_, u32 kind )
{
    ucontext_t* uc = (ucontext_t*)uc_;
    violkind = kind;
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)die_tramp;
    uc->uc_mcontext.gregs[REG_RSP] = (greg_t)( emerg + STK - 64 - 8 );
}
static void on_segv( int sig, siginfo_t* si, void* uc )
{
    if ( on_fiber < 0 ) { const char* m = "INTERNAL crash outside fiber\n"; (void)!write( 1, m, strlen( m ) ); _exit( 3 ); }
    snprintf( crashmsg, sizeof crashmsg, "crash (signal %d) accessing address %p", sig, si->si_addr );
    hijack( uc, V_MEM );
}
static u64 tick_progress; static int tick_same;
static void on_alarm( int, siginfo_t*, void* uc )
{
    if ( progress != tick_progress || on_fiber < 0 ) { tick_progress = progress; tick_same = 0; return; }
    if ( ++tick_same < 8 ) return;
    snprintf( crashmsg, sizeof crashmsg, "operation does not terminate (no shared access, endless computation)" );
    hijack( uc, V_STUCK );
}

// ------------------------------------------------------------------------------------------------ arena
static inline bool wants_b( ) { return O.mapping == 2 ? ( E.mapsel & 1 ) && E.t[E.cur].inlib : ( O.mapping == 1 && ( E.cur & 1 ) && E.cur != MAINT ); }
static inline bool in_arena( u64 a, u32& off )
{
    u64 o = a - MAP_A;
    if ( likely( o < ARENA ) ) { off = (u32)o; if ( unlikely( O.mapping ) && wants_b( ) )
            mc_violation( V_MAP, "access to offset %u through the other process's mapping", off ); return true; }
    o = a - MAP_B;
    if ( o < ARENA ) { off = (u32)o; if ( !wants_b( ) && !( O.mapping == 2 && !E.t[E.cur].inlib ) )
            mc_violation( V_MAP, "access to offset %u through the other process's mapping", off ); return true; }
    return false;
}
u64 mc_arena_base( int m ) { return m ? MAP_B : MAP_A; }
static u32 segbase( int t ) { return t == MAINT ? 0 : MSEG + t * SEG; }
static u32 seglim( int t ) { return t == MAINT ? MSEG : MSEG + ( t + 1 ) * SEG; }
static inline u64 ghash( u32 gi, u32 v ) { return mix2( gi + 1, v ); }
static inline void upd( u32 gi )
{
    u32 v = ( (u32*)arena )[gi], o = g->shadow[gi];
    if ( v != o ) { E.memhash ^= ghash( gi, v ) ^ ghash( gi, o ); g->shadow[gi] = v; }
}
static void upd_range( u32 off, u32 n ) { for ( u32 i = off / 4; i <= ( off + n - 1 ) / 4; i++ ) upd( i ); }

static void* arena_alloc( size_t n, size_t align, u32 who )
{
    if ( align < 16 ) align = 16;
    int t = E.cur;
    u32 a = ( E.brk[t] + (u32)align - 1 ) / (u32)align * (u32)align;
    if ( E.misalign && a % ( 2 * align ) == 0 ) a += align;      // not aligned more strictly than requested
    size_t sz = ( n + 15 ) / 16 * 16;
    if ( n > 0x8000 || a + sz + 16 > seglim( t ) ) return 0;
    if ( E.nblk >= MAXBLK ) return 0;
    E.brk[t] = a + sz + 16;
    g->blk[E.nblk++] = { a, (u32)n, who, 1 };
    memset( arena + a, 0xCD, sz );
    memset( g->live + a / 4, 1, ( n + 3 ) / 4 );
    memset( g->life + a / 4, 0, ( n + 3 ) / 4 );
    for ( u32 i = a / 4; i < ( a + sz ) / 4; i++ ) {    // fresh memory: hash from "zero" base
        u32 o = g->shadow[i], v = 0xCDCDCDCD;
        if ( o != v ) { E.memhash ^= ghash( i, v ) ^ ghash( i, o ); g->shadow[i] = v; }
    }
    E.liveblk++;
    return arena + a;
}
static void plain_flush( );
static int find_block( u32 off )
{
    for ( u32 i = 0; i < E.nblk; i++ ) if ( g->blk[i].off == off ) return i;
    return -1;
}
static bool arena_free( void* p, u32 who, size_t bytes, bool sized )
{
    u64 o = (u64)p - MAP_A; if ( o >= ARENA ) { o = (u64)p - MAP_B; if ( o >= ARENA ) return false; }
    plain_flush( );
    int b = find_block( (u32)o );
    if ( b < 0 ) mc_violation( V_LEAK, "release of a pointer that is not the start of a block" );
    Block& B = g->blk[b];
    if ( !B.live ) mc_violation( V_LEAK, "block released twice" );
    if ( B.who != who ) mc_violation( V_SRC, "block obtained from allocator %u released to %u", B.who, who );
    if ( sized && B.size != bytes ) mc_violation( V_LEAK, "block of %u bytes released as %zu bytes", B.size, bytes );
    B.live = 0; E.liveblk--;
    memset( g->live + B.off / 4, 0, ( B.size + 3 ) / 4 );
    if ( verbose ) mc_log( "free block +%u (%u bytes)", B.off, B.size );
    return true;
}
static bool in_lib( ) { return g && on_fiber >= 0 && CUR.inlib; }
static int exc_alloc;
extern "C" int mc_fault( int kind );
static bool user_src;
static void sched_point( u32 off, u32 n, int k, int mo );
static void* lib_alloc( size_t n, size_t align, u32 who )
{
    progress++;
    plain_flush( );
    if ( E.phase == PH_CONC && CUR.inv == 1 && !CUR.noyield ) sched_point( 0, 0, 6, 0 );   // the number of nodes is shared state: the operation has begun
    if ( CUR.forbid & 1 ) mc_violation( V_ALLOC, "operation that must not allocate requested %zu bytes", n );
    if ( E.expect_who && who != E.expect_who ) mc_violation( V_SRC, "memory obtained from allocator %u instead of the supplied allocator %u", who, E.expect_who );
    if ( mc_fault( 2 ) ) return 0;
    void* p = arena_alloc( n, align, who );
    if ( p ) { E.nodes++; CUR.local = mix2( CUR.local, (u64)p );
        if ( CUR.inv ) { CUR.d.alloc = 1; CUR.d.nodes_at_alloc = E.nodes - 1; } }
    if ( verbose ) mc_log( "allocate %zu bytes -> +%llu", n, p ? (unsigned long long)( (u64)p - MAP_A ) : 0ull );
    return p;
}
static void lib_free( void* p, u32 who, size_t bytes, bool sized )
{
    progress++;
    if ( ( CUR.forbid & 2 ) && in_lib( ) ) {
        plain_flush( );
        mc_violation( V_ALLOC, "memory returned to the allocator before destruction" );
    }
    u32 lb = E.liveblk;
    arena_free( p, who, bytes, sized );
    if ( E.liveblk != lb && E.nodes ) E.nodes--;
}
extern "C" {
void* mc_raw_alloc( size_t n, size_t al ) { return arena_alloc( n, al, 77 ); }
void  mc_raw_free( void* p ) { arena_free( p, 77, 0, false ); }
u32 mc_nodes( void ) { return E.nodes; }
u32 mc_live_blocks( void ) { return E.liveblk; }
u64 mc_user_alloc( u32 who, size_t b, size_t al ) { bool s = user_src; user_src = true; u64 r = (u64)lib_alloc( b, al, who ); user_src = s; return r; }
void mc_user_free( u32 who, void* p, size_t b ) { lib_free( p, who, b, true ); }
void mc_forbid_alloc( int on ) { CUR.forbid = on; }
void mc_enter( void ) { CUR.inlib++; }
void mc_leave( void ) { plain_flush( ); CUR.inlib--; }
static u32 forbid_heap;   // bit: direct heap use by code under test is a violation (a user allocator is in place)
void mc_forbid_heap( int on ) { forbid_heap = on; }
void mc_exact_alignment( int on ) { E.misalign = on; }
void* __cxa_allocate_exception( size_t n ) throw( )
{
    size_t tot = n + 128;
    char* p = (char*)__libc_calloc( 1, tot );
    if ( g && on_fiber >= 0 ) E.exlive++;
    return p + 128;
}
void __cxa_free_exception( void* p ) throw( ) { if ( g && on_fiber >= 0 ) E.exlive--; __libc_free( (char*)p - 128 ); }
static void* heap( size_t n, size_t al )
{
    if ( forbid_heap ) mc_violation( V_SRC, "memory obtained from the global heap although an allocator was supplied" );
    void* p = lib_alloc( n, al, 1 ); 
    return p;
}
void* malloc( size_t n ) { return in_lib( ) ? heap( n, 16 ) : __libc_malloc( n ); }
void free( void* p )
{
    if ( !p ) return;
    if ( (u64)p - MAP_A < ARENA || (u64)p - MAP_B < ARENA ) lib_free( p, 1, 0, false ); else __libc_free( p );
}
void* calloc( size_t a, size_t b ) { if ( !in_lib( ) ) return __libc_calloc( a, b ); void* p = heap( a * b, 16 ); if ( p ) memset( p, 0, a * b ); return p; }
void* realloc( void* p, size_t n )
{
    if ( (u64)p - MAP_A < ARENA ) internal( "realloc" );
    return __libc_realloc( p, n );
}
int posix_memalign( void** r, size_t al, size_t n )
{
    *r = in_lib( ) ? heap( n, al ) : __libc_memalign( al, n );
    return *r ? 0 : ENOMEM;
}
void* aligned_alloc( size_t al, size_t n ) { return in_lib( ) ? heap( n, al ) : __libc_memalign( al, n ); }
void* memalign( size_t al, size_t n ) { return in_lib( ) ? heap( n, al ) : __libc_memalign( al, n ); }
// locks and blocking calls made by the code under test
static void lock_used( const char* w ) { if ( in_lib( ) ) mc_violation( V_LOCK, "operation uses a blocking primitive: %s", w ); }
int pthread_mutex_lock( pthread_mutex_t* ) throw( ) { lock_used( "pthread_mutex_lock" ); return 0; }
int pthread_mutex_trylock( pthread_mutex_t* ) throw( ) { lock_used( "pthread_mutex_trylock" ); return 0; }
int pthread_mutex_unlock( pthread_mutex_t* ) throw( ) { return 0; }
int pthread_spin_lock( pthread_spinlock_t* ) throw( ) { lock_used( "pthread_spin_lock" ); return 0; }
int sched_yield( void ) throw( ) { return 0; }
int nanosleep( const struct timespec*, struct timespec* ) { return 0; }
int usleep( useconds_t ) { return 0; }
int clock_nanosleep( clockid_t, int, const struct timespec*, struct timespec* ) { return 0; }
}

// ------------------------------------------------------------------------------------------------ monitor
static inline u64 resh( int count, const u8* v, int n )
{
    u64 h = mix2( 77, count ); for ( int i = 0; i < n; i++ ) h = mix2( h, v[i] ); return h;
}
static inline int weight( const OpDesc& d, const Pend& p )
{
    if ( p.st == 0 ) return 0;
    switch ( d.kind ) {
    case K_PUSH: return p.st == 1 ? d.n : p.held;
    case K_POP: case K_POPALL: case K_POPALLR: return p.st == 2 ? p.held : 0;
    case K_SUBPOP: return 1 + ( p.st == 2 ? p.held : 0 );
    case K_RESERVE: return d.n;
    default: return 0;
    }
}
static const OpDesc& opd( int t ) { return E.t[t].d; }
// refresh the interval observations (largest pressure / smallest size) of operations not yet linearised
static void observe( Config& c, const OpDesc* D )
{
    for ( int t = 0; t < MAXT; t++ ) {
        Pend& p = c.p[t]; if ( p.st != 1 ) continue;
        int k = D[t].kind;
        if ( k == K_PUSH || k == K_WAVAIL ) {
            if ( ( S.cap == 0xffff && !D[t].bounded && !S.allocrule ) ) continue;
            int pr = c.n;
            if ( S.nodes ) for ( int u = 0; u < MAXT; u++ ) if ( u != t ) pr += weight( D[u], c.p[u] );
            if ( pr > 250 ) pr = 250;
            if ( pr > p.maxp ) p.maxp = pr;
        } else if ( k == K_POPN || k == K_RAVAIL || k == K_FRONT ) { if ( c.n < p.minsz ) p.minsz = c.n; }
    }
}
static bool same( const Config& a, const Config& b ) { return memcmp( &a, &b, sizeof a ) == 0; }
static void pop_one( Config& c, u8& v )
{
    if ( S.lifo == 1 ) { v = c.it[--c.n]; c.it[c.n] = 0; }
    else { v = c.it[0]; memmove( c.it, c.it + 1, c.n - 1 ); c.it[--c.n] = 0; }
}
// enumerate all ways to linearise pending operation t in configuration c
template < class F > static void outcomes( const Config& c0, int t, const OpDesc* D, F emit )
{
    const OpDesc& d = D[t]; const Pend& p = c0.p[t];
    auto fin = [&]( Config& c, u64 res, int held ) {
        Pend& q = c.p[t]; q.st = 2; q.res = res; q.held = held;
        if ( !S.allocrule ) q.maxp = 0;
        q.minsz = 0; emit( c );
    };
    switch ( d.kind ) {
    case K_PUSH: {
        for ( int k = 0; k <= d.n; k++ ) {
            if ( k < d.n ) {
                u32 cap = S.cap != 0xffff ? S.cap : d.bounded ? d.cap : 0xffff;
                if ( cap == 0xffff || p.maxp + k < (int)cap ) continue;
            }
            if ( S.cap != 0xffff && c0.n + k > S.cap ) continue;
            if ( c0.n + k > (int)sizeof c0.it ) internal( "spec overflow" );
            Config c = c0; for ( int i = 0; i < k; i++ ) c.it[c.n++] = d.vals[0] + i;
            u8 cnt = (u8)k; fin( c, resh( cnt, 0, 0 ), 0 );
        }
        break;
    }
    case K_POP: case K_SUBPOP: {
        Config c = c0;
        if ( !c.n ) { fin( c, resh( 0, 0, 0 ), 0 ); break; }
        u8 v; pop_one( c, v ); fin( c, resh( 1, &v, 1 ), 1 );
        break;
    }
    case K_POPALL: case K_POPALLR: {
        Config c = c0; u8 vs[MAXIT + 1]; int n = c.n;
        for ( int i = 0; i < n; i++ ) { u8 v; pop_one( c, v ); if ( d.kind == K_POPALL ) vs[i] = v; else vs[n - 1 - i] = v; }
        fin( c, resh( n, vs, n ), n );
        break;
    }
    case K_POPN:
        for ( int k = 0; k <= d.n && k <= c0.n; k++ ) {
            if ( k < d.n && p.minsz > k ) continue;
            Config c = c0; u8 vs[MAXIT + 1];
            for ( int i = 0; i < k; i++ ) pop_one( c, vs[i] );
            fin( c, resh( k, vs, k ), 0 );
        }
        break;
    case K_EMPTY: { Config c = c0; fin( c, resh( c.n == 0, 0, 0 ), 0 ); break; }
    case K_RAVAIL: for ( int k = p.minsz; k <= c0.n; k++ ) { Config c = c0; fin( c, resh( k, 0, 0 ), 0 ); } break;
    case K_WAVAIL: for ( int k = (int)S.cap - p.maxp; k <= (int)S.cap - c0.n; k++ ) { Config c = c0; fin( c, resh( k, 0, 0 ), 0 ); } break;
    case K_FRONT: {
        if ( p.minsz == 0 ) { Config c = c0; fin( c, resh( 0, 0, 0 ), 0 ); }
        if ( c0.n ) { Config c = c0; u8 v = c.it[0]; fin( c, resh( 1, &v, 1 ), 0 ); }
        break;
    }
    case K_RESERVE: { Config c = c0; fin( c, resh( 0, 0, 0 ), 0 ); break; }
    case K_ALLOC: {
        if ( !c0.n ) { Config c = c0; fin( c, resh( 0, 0, 0 ), 0 ); break; }
        for ( int i = 0; i < c0.n; i++ ) {
            Config c = c0; u8 v = c.it[i]; memmove( c.it + i, c.it + i + 1, c.n - 1 - i ); c.it[--c.n] = 0;
            fin( c, resh( 1, &v, 1 ), 0 );
        }
        break;
    }
    case K_FREE: {
        Config c = c0; int i = c.n; while ( i > 0 && c.it[i - 1] > d.vals[0] ) { c.it[i] = c.it[i - 1]; i--; }
        c.it[i] = d.vals[0]; c.n++; fin( c, resh( 0, 0, 0 ), 0 ); break;
    }
    }
}
static bool add_conf( const Config& c )
{
    for ( u32 i = 0; i < E.nconf; i++ ) if ( same( g->conf[i], c ) ) return false;
    if ( E.nconf >= MAXCONF ) internal( "too many monitor configurations" );
    g->conf[E.nconf++] = c; return true;
}
static void cur_ops( OpDesc* D ) { for ( int t = 0; t < MAXT; t++ ) D[t] = E.t[t].d; }
static void mon_invoke( int t )
{
    OpDesc D[MAXT]; cur_ops( D );
    for ( u32 i = 0; i < E.nconf; i++ ) {
        Pend& p = g->conf[i].p[t]; memset( &p, 0, sizeof p ); p.st = 1;
        if ( D[t].kind == K_POPN || D[t].kind == K_RAVAIL || D[t].kind == K_FRONT ) p.minsz = 255;
        observe( g->conf[i], D );
    }
}
static void mon_respond( int t, u64 res )
{
    OpDesc D[MAXT]; cur_ops( D );
    // closure under linearising pending operations
    for ( u32 i = 0; i < E.nconf; i++ )
        for ( int u = 0; u < MAXT; u++ )
            if ( g->conf[i].p[u].st == 1 ) {
                Config c0 = g->conf[i];
                if ( c0.p[t].st == 2 && c0.p[t].res != res ) continue;
                outcomes( c0, u, D, [&]( Config& c ) {
                    if ( u == t && c.p[t].res != res ) return;
                    observe( c, D ); add_conf( c ); } );
            }
    u32 n = E.nconf; E.nconf = 0; bool allocbad = false;
    for ( u32 i = 0; i < n; i++ ) {
        Config c = g->conf[i];
        if ( c.p[t].st != 2 || c.p[t].res != res ) continue;
        if ( S.allocrule && D[t].kind == K_PUSH && D[t].alloc && c.p[t].maxp + D[t].n - 1 < D[t].nodes_at_alloc - S.dummy ) { allocbad = true; continue; }
        memset( &c.p[t], 0, sizeof( Pend ) );
        add_conf( c );
    }
    if ( !E.nconf ) {
        if ( allocbad ) mc_violation( V_ALLOC, "push allocated memory although free nodes were available" );
        mc_violation( V_LIN, "result of operation %u of thread %d is not explained by any sequential order", CUR.op, t );
    }
}
static const char* kname( int k )
{
    static const char* n[] = { "none", "push", "pop", "subpop", "popall", "popall_reversed", "popn", "empty", "read_available",
                               "write_available", "front", "reserve", "alloc", "free", "nop" };
    return n[k];
}
static void weak_invoke( );
static void do_invoke( )
{
    Thr& T = CUR; if ( T.inv != 1 ) return;
    T.inv = 2; T.mid = 1;
    if ( T.d.bounded ) T.d.cap = E.nodes - S.dummy;
    if ( verbose ) { char b[100] = ""; int l = 0; for ( int i = 0; i < T.d.n && i < 8 && T.d.kind != K_POPN; i++ ) l += sprintf( b + l, " %u", T.d.vals[i] );
        mc_log( "--- invoke %s n=%d values:%s", kname( T.d.kind ), T.d.n, b ); }
    if ( O.weak ) { weak_invoke( ); if ( E.phase != PH_SETUP ) return; }
    mon_invoke( E.cur );
}
static void weak_respond( int count, const u8* vals, int nv );
extern "C" void mc_invoke( int kind, int n, const u8* vals, int bounded )
{
    Thr& T = CUR; progress++;
    memset( &T.d, 0, sizeof T.d );
    T.d.kind = kind; T.d.n = n; T.d.bounded = bounded;
    if ( vals ) memcpy( T.d.vals, vals, n < 8 ? n : 8 );      // the values of a batch are consecutive: vals[0] + i
    T.inv = 1; T.steps = T.atoms = T.acc = 0;
    T.local = kind == K_SUBPOP && bounded ? mix2( T.local, 99 ) : mix2( 99, T.op );   // a continued sub-operation keeps its local state
    bool cont = kind == K_SUBPOP && bounded;
    if ( kind == K_SUBPOP ) T.d.bounded = 0;
    if ( E.phase != PH_CONC || cont ) do_invoke( );     // a continued operation still holds the node it just delivered
}
extern "C" void mc_respond( int count, const u8* vals, int nv )
{
    plain_flush( );
    Thr& T = CUR; progress++;
    if ( T.inv == 1 ) do_invoke( );
    u64 r = resh( count, vals, nv );
    if ( verbose ) { char b[200] = ""; int l = 0; for ( int i = 0; i < nv && i < 30; i++ ) l += sprintf( b + l, " %u", vals[i] );
        mc_log( "--- %s returns %d values:%s", kname( T.d.kind ), count, b ); }
    if ( T.steps > g_maxsteps ) g_maxsteps = T.steps;
    if ( T.atoms > g_maxatoms ) g_maxatoms = T.atoms;
    if ( O.weak ) weak_respond( count, vals, nv );
    if ( !O.weak || E.phase == PH_SETUP ) mon_respond( E.cur, r );
    T.outcome = mix2( T.outcome, r );
    T.inv = 0; T.mid = 0; T.op++;
    memset( &T.d, 0, sizeof T.d );
}

// ------------------------------------------------------------------------------------------------ element lifetime
extern "C" void mc_obj( const void* a, int what )
{
    u32 off; plain_flush( );
    if ( !in_arena( (u64)a, off ) ) return;
    u8& l = g->life[off / 4];
    if ( what > 0 ) { if ( l ) mc_violation( V_LIFE, "element constructed over a live element at +%u", off ); l = 1; E.lifecount++; }
    else if ( what < 0 ) { if ( !l ) mc_violation( V_LIFE, "destructor called without a live element at +%u", off ); l = 0; E.lifecount--; }
    else { if ( !l ) mc_violation( V_LIFE, "element at +%u used although not alive", off ); return; }
    E.lifehash ^= mix2( off, 4242 );
}
extern "C" int mc_live_objs( void ) { return E.lifecount; }
extern "C" void mc_copied( void ) { if ( g && on_fiber >= 0 && CUR.inlib ) E.copies++; }
extern "C" u32 mc_copies( int reset ) { u32 c = E.copies; if ( reset ) E.copies = 0; return c; }
extern "C" void mc_macro( int on )
{
    plain_flush( ); CUR.noyield = 0;
    if ( E.phase == PH_CONC && on ) { CUR.steps = CUR.atoms = 0; to_explorer( RQ_SCHED ); mc_log( "--- macro step" ); }
    if ( on ) CUR.noyield = 1;
}

// ------------------------------------------------------------------------------------------------ weak memory
static void w_plain_store_done( u32 off, u32 n ); static void w_plain_write( u32 off, u32 n ); static void w_plain_read( u32 off, u32 n );
static void w_load( u32 off, u32 n, int mo, void* v ); static void w_store( u32 off, u32 n, int mo, int rmw, bool atomic );
static void w_rmw_read( u32 off, u32 n, int mo ); static void w_load_latest( u32 off, u32 n, int mo );
static void w_cas_fail( u32 off, u32 n, int mo, void* v, void* cmp ); static void w_fence( int mo );
static void w_touch( u32 off, u32 n ); static u64 w_hash( ); static void w_start( ); static void w_join( ); static int ask( int n, int kind );

// ------------------------------------------------------------------------------------------------ accesses
struct PW { u32 off, n; bool x; };
static PW pw[4]; static int npw;          // plain stores announced, not yet performed
static struct { u32 gi4; u8 val[16]; u32 n; } patch[8]; static int npatch;   // stale values written over memory for a plain read

static void plain_flush( )
{
    if ( npatch ) { for ( int i = 0; i < npatch; i++ ) memcpy( arena + patch[i].gi4 * 4, patch[i].val, patch[i].n ); npatch = 0; }
    if ( npw ) {
        int n = npw; npw = 0;
        for ( int i = 0; i < n; i++ ) {
            if ( pw[i].x ) { continue; }
            if ( O.weak && E.phase == PH_CONC ) w_plain_store_done( pw[i].off, pw[i].n );
            upd_range( pw[i].off, pw[i].n );
        }
    }
}
static const char* akn[] = { "load", "store", "rmw", "cas", "read", "write", "fence" };
enum AK { A_LOAD, A_STORE, A_RMW, A_CAS, A_PR, A_PW, A_FENCE };
static const char* mon[] = { "relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst" };

static void count_step( bool atomic )
{
    Thr& T = CUR; progress++;
    if ( T.noyield ) return;
    T.acc++;
    if ( T.acc > 60000 ) mc_violation( V_STUCK, "operation does not terminate (%u accesses)", T.acc );
    if ( E.phase != PH_CONC ) return;
    T.steps++; if ( atomic ) T.atoms++;
    if ( O.wfcap && T.inv && (int)T.atoms > O.wfcap )
        mc_violation( V_WAITFREE, "operation took more than %d own atomic steps", O.wfcap );
    if ( (int)T.steps > O.stepcap ) {
        bool alone = true;
        for ( int t = 0; t < E.nthreads; t++ ) if ( t != E.cur && E.t[t].state != ST_DONE && E.t[t].mid ) alone = false;
        mc_violation( alone ? V_STUCK : V_NONTERM, "operation does not terminate within %d own steps%s", O.stepcap,
                      alone ? " although no other operation is in progress" : " while other threads are suspended" );
    }
}
static void check_live( u32 off, u32 n, int k )
{
    if ( !g->live[off / 4] || !g->live[( off + n - 1 ) / 4] )
        mc_violation( V_MEM, "%s of %u bytes at +%u: not inside a live block", akn[k], n, off );
}
static bool mark_vis( u32 off, u32 n, bool wr )
{
    bool v = false;
    if ( E.phase != PH_CONC ) return false;
    u8 bit = 1u << E.cur;
    for ( u32 i = off / 4; i <= ( off + n - 1 ) / 4; i++ ) {
        if ( wr ) wmask[i] |= bit; else rmask[i] |= bit;
        if ( !vis[i] ) { u8 a = rmask[i] | wmask[i]; if ( wmask[i] && ( a & ( a - 1 ) ) ) { vis[i] = 1; newvis = true; } }
        v |= vis[i];
    }
    return v;
}
static void sched_point( u32 off, u32 n, int k, int mo )
{
    Thr& T = CUR;
    if ( E.phase == PH_CONC && !T.noyield ) {
        T.pend_addr = off; T.psz = n; T.pkind = k; T.pmo = mo;
        to_explorer( RQ_SCHED );
        do_invoke( );
    }
}
static inline u64 rdmem( const void* p, u32 n )
{
    u64 v = 0; memcpy( &v, p, n > 8 ? 8 : n ); if ( n > 8 ) { u64 w = 0; memcpy( &w, (char*)p + 8, n - 8 ); v = mix2( v, w ); } return v;
}
static int xfind( u64 a )
{
    a &= ~7ull;
    for ( u32 i = 0; i < nx; i++ ) if ( xaddr[i] == a ) return i;
    if ( nx >= NXG ) internal( "too many static variables" );
    xaddr[nx] = a; memcpy( &xorig[nx], (void*)a, 8 );
    return nx++;
}
static inline bool is_x( u64 a ) { return a - dlo < dhi - dlo; }

static void plain( u64 a, u32 n, bool wr )
{
    if ( !g || on_fiber < 0 ) return;
    u32 off;
    if ( !in_arena( a, off ) ) {
        if ( unlikely( is_x( a ) ) && in_lib( ) ) {
            plain_flush( ); int x = xfind( a ); u32 gi = ARENA / 4 + x * 2;
            if ( mark_vis( gi * 4, 4, wr ) ) { count_step( false ); sched_point( gi * 4, n, wr ? A_PW : A_PR, 0 ); }
            CUR.local = mix2( CUR.local, wr ? 7 : *(u64*)xaddr[x] );
        }
        return;
    }
    plain_flush( );
    if ( a & 3 && ( off & 3 ) + n > 8 ) {}
    check_live( off, n, wr ? A_PW : A_PR );
    if ( mark_vis( off, n, wr ) ) { count_step( false ); sched_point( off, n, wr ? A_PW : A_PR, 0 ); }
    else { progress++; if ( !CUR.noyield && ++CUR.acc > 60000 ) mc_violation( V_STUCK, "operation does not terminate (%u accesses)", CUR.acc ); }
    if ( O.weak && E.phase == PH_CONC ) { if ( wr ) w_plain_write( off, n ); else w_plain_read( off, n ); }
    if ( wr ) { if ( npw >= 4 ) internal( "npw" ); pw[npw++] = { off, n, false }; CUR.local = mix2( CUR.local, 7 ); }
    else CUR.local = mix2( CUR.local, rdmem( arena + off, n ) );
    if ( verbose && ( E.phase == PH_CONC ) )
        mc_log( "%s%u +%u%s", akn[wr ? A_PW : A_PR], n * 8, off, wr ? "" : "" );
}
template < class T > struct AtTgt { T* p; u32 off; int k; };   // k: 0 untracked 1 arena 2 extra
template < class T > static AtTgt< T > at_pre( volatile T* a, int kind, int mo )
{
    u32 off; AtTgt< T > r{ (T*)a, 0, 0 };
    if ( !g || on_fiber < 0 ) return r;
    if ( !in_arena( (u64)a, off ) ) {
        if ( !is_x( (u64)a ) || !in_lib( ) ) return r;
        plain_flush( ); int x = xfind( (u64)a ); off = ( ARENA / 4 + x * 2 ) * 4;
        r.off = off; r.k = 2;
        count_step( true ); sched_point( off, sizeof( T ), kind, mo );
        return r;
    }
    plain_flush( );
    r.off = off; r.k = 1; r.p = (T*)( arena + off );
    check_live( off, sizeof( T ), kind );
    if ( (u64)a % sizeof( T ) ) mc_violation( V_MEM, "misaligned atomic access" );
    for ( u32 i = off / 4; i <= ( off + sizeof( T ) - 1 ) / 4; i++ )
        if ( E.phase == PH_CONC ) { u8 bit = 1u << E.cur; if ( kind == A_LOAD ) rmask[i] |= bit; else wmask[i] |= bit; if ( !vis[i] ) { vis[i] = 1; newvis = true; } }
    count_step( true );
    sched_point( off, sizeof( T ), kind, mo );
    if ( O.weak && E.phase == PH_CONC ) w_touch( off, sizeof( T ) );
    return r;
}
template < class T > static inline u64 tohash( T v ) { return sizeof( T ) > 8 ? mix2( (u64)v, (u64)( (unsigned __int128)v >> 64 ) ) : (u64)v; }
template < class T > static void trace_at( const AtTgt< T >& r, int k, int mo, T v )
{
    if ( verbose && r.k && E.phase == PH_CONC ) mc_log( "atomic %s%zu +%u %s  value 0x%llx", akn[k], sizeof( T ) * 8, r.off, mon[mo % 6], (unsigned long long)v );
}
template < class T > static T at_load( const volatile T* a, int mo )
{
    auto r = at_pre( (volatile T*)a, A_LOAD, mo );
    T v;
    if ( O.weak && r.k == 1 && E.phase == PH_CONC ) w_load( r.off, sizeof( T ), mo, &v ); else v = *r.p;
    if ( r.k ) CUR.local = mix2( CUR.local, tohash( v ) );
    trace_at( r, A_LOAD, mo, v );
    return v;
}
template < class T > static void at_done( const AtTgt< T >& r, int mo, int rmw )
{
    if ( r.k != 1 ) return;
    if ( O.weak && E.phase == PH_CONC ) w_store( r.off, sizeof( T ), mo, rmw, true );
    upd_range( r.off, sizeof( T ) );
}
template < class T > static void at_store( volatile T* a, T v, int mo )
{
    auto r = at_pre( a, A_STORE, mo ); *r.p = v; at_done( r, mo, 0 ); trace_at( r, A_STORE, mo, v );
    if ( r.k ) CUR.local = mix2( CUR.local, 8 );
}
template < class T, class F > static T at_rmw( volatile T* a, int mo, F f )
{
    auto r = at_pre( a, A_RMW, mo );
    if ( O.weak && r.k == 1 && E.phase == PH_CONC ) w_rmw_read( r.off, sizeof( T ), mo );
    T o = *r.p; *r.p = f( o ); 
    if ( r.k ) CUR.local = mix2( CUR.local, tohash( o ) );
    at_done( r, mo, 1 ); trace_at( r, A_RMW, mo, o ); return o;
}
static int ask( int n, int kind );
extern "C" void mc_cas_pre( int w ) { if ( g && on_fiber >= 0 ) { CUR.weaknext = w != 0; CUR.spur = 0; } }
extern "C" bool mc_cas_post( bool ok, void* e, size_t n )
{
    if ( !g || on_fiber < 0 ) return ok;
    if ( CUR.spur ) { CUR.spur = 0; memcpy( e, CUR.spurval, n ); return false; }
    return ok;
}
template < class T > static T at_cas( volatile T* a, T cmp, T nw, int mo, int fmo )
{
    auto r = at_pre( a, A_CAS, mo );
    bool weak = r.k && CUR.weaknext; if ( on_fiber >= 0 && g ) CUR.weaknext = 0;
    T o = *r.p;
    if ( o == cmp ) {
        if ( weak && E.phase == PH_CONC && E.spur_used < O.spurious && ask( 2, CH_SPUR ) ) {
            E.spur_used++;
            if ( O.weak && r.k == 1 && E.phase == PH_CONC ) w_load_latest( r.off, sizeof( T ), fmo );
            memcpy( CUR.spurval, &o, sizeof( T ) > 16 ? 16 : sizeof( T ) ); CUR.spur = 1;
            CUR.local = mix2( CUR.local, mix2( 5, tohash( o ) ) );
            trace_at( r, A_CAS, fmo, o ); if ( verbose ) mc_log( "   spurious failure" );
            return (T)~cmp;
        }
        if ( O.weak && r.k == 1 && E.phase == PH_CONC ) w_rmw_read( r.off, sizeof( T ), mo );
        *r.p = nw; at_done( r, mo, 1 );
        if ( r.k ) CUR.local = mix2( CUR.local, 6 );
        trace_at( r, A_CAS, mo, nw ); if ( verbose && r.k && E.phase == PH_CONC ) mc_log( "   succeeded" );
        return o;
    }
    if ( O.weak && r.k == 1 && E.phase == PH_CONC ) w_cas_fail( r.off, sizeof( T ), fmo, &o, &cmp );
    if ( r.k ) CUR.local = mix2( CUR.local, tohash( o ) );
    trace_at( r, A_CAS, fmo, o ); if ( verbose && r.k && E.phase == PH_CONC ) mc_log( "   failed" );
    return o;
}

#include "weak.inc"
extern "C" {
void __tsan_init( ) {}
void __tsan_func_entry( void* ) {}
void __tsan_func_exit( ) {}
void __tsan_ignore_thread_begin( ) {}
void __tsan_ignore_thread_end( ) {}
void __tsan_vptr_update( void** a, void* ) { plain( (u64)a, 8, true ); }
void __tsan_vptr_read( void** a ) { plain( (u64)a, 8, false ); }
#define PL( N ) \
    void __tsan_read##N( void* a ) { plain( (u64)a, N, false ); } \
    void __tsan_write##N( void* a ) { plain( (u64)a, N, true ); } \
    void __tsan_read_write##N( void* a ) { plain( (u64)a, N, false ); plain( (u64)a, N, true ); } \
    void __tsan_unaligned_read##N( void* a ) { plain( (u64)a, N, false ); } \
    void __tsan_unaligned_write##N( void* a ) { plain( (u64)a, N, true ); } \
    void __tsan_unaligned_read_write##N( void* a ) { plain( (u64)a, N, false ); plain( (u64)a, N, true ); } \
    void __tsan_volatile_read##N( void* a ) { plain( (u64)a, N, false ); } \
    void __tsan_volatile_write##N( void* a ) { plain( (u64)a, N, true ); }
PL( 1 ) PL( 2 ) PL( 4 ) PL( 8 ) PL( 16 )
static void range_copy( char* d, const char* s, size_t n, bool back )
{
    // element-wise, in pieces that never straddle a 4-byte granule of tracked memory more than needed
    u32 o; bool td = g && on_fiber >= 0 && in_arena( (u64)d, o ), ts = g && on_fiber >= 0 && in_arena( (u64)s, o );
    if ( !td && !ts ) { memmove( d, s, n ); return; }
    size_t i = 0; 
    char tmp[4096]; if ( n > sizeof tmp ) internal( "memcpy size" );
    (void)back;
    while ( i < n ) {
        size_t st = 4 - ( ( ts ? (u64)s : (u64)d ) + i ) % 4; if ( st > n - i ) st = n - i;
        if ( ts ) plain( (u64)s + i, st, false );
        memcpy( tmp + i, s + i, st );
        i += st;
    }
    plain_flush( );
    i = 0;
    while ( i < n ) {
        size_t st = 4 - ( (u64)d + i ) % 4; if ( st > n - i ) st = n - i;
        if ( td ) plain( (u64)d + i, st, true );
        memcpy( d + i, tmp + i, st );
        i += st;
    }
    if ( td ) plain_flush( );
}
void* __tsan_memcpy( void* d, const void* s, size_t n ) { range_copy( (char*)d, (const char*)s, n, false ); return d; }
void* __tsan_memmove( void* d, const void* s, size_t n ) { range_copy( (char*)d, (const char*)s, n, false ); return d; }
void* __tsan_memset( void* d, int v, size_t n )
{
    u32 o; if ( !g || on_fiber < 0 || !n || !in_arena( (u64)d, o ) ) { memset( d, v, n ); return d; }
    for ( size_t i = 0; i < n; ) {
        size_t st = 4 - ( (u64)d + i ) % 4; if ( st > n - i ) st = n - i;
        plain( (u64)d + i, st, true ); memset( (char*)d + i, v, st ); i += st;
    }
    plain_flush( );
    return d;
}
#define AT( N, T ) \
    T __tsan_atomic##N##_load( const volatile T* a, int mo ) { return at_load< T >( a, mo ); } \
    void __tsan_atomic##N##_store( volatile T* a, T v, int mo ) { at_store< T >( a, v, mo ); } \
    T __tsan_atomic##N##_exchange( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T ) { return v; } ); } \
    T __tsan_atomic##N##_fetch_add( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)( o + v ); } ); } \
    T __tsan_atomic##N##_fetch_sub( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)( o - v ); } ); } \
    T __tsan_atomic##N##_fetch_and( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)( o & v ); } ); } \
    T __tsan_atomic##N##_fetch_or( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)( o | v ); } ); } \
    T __tsan_atomic##N##_fetch_xor( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)( o ^ v ); } ); } \
    T __tsan_atomic##N##_fetch_nand( volatile T* a, T v, int mo ) { return at_rmw< T >( a, mo, [&]( T o ) { return (T)~( o & v ); } ); } \
    T __tsan_atomic##N##_compare_exchange_val( volatile T* a, T c, T v, int mo, int fmo ) { return at_cas< T >( a, c, v, mo, fmo ); } \
    int __tsan_atomic##N##_compare_exchange_strong( volatile T* a, T* c, T v, int mo, int fmo ) { T o = at_cas< T >( a, *c, v, mo, fmo ); bool ok = o == *c; *c = o; return ok; } \
    int __tsan_atomic##N##_compare_exchange_weak( volatile T* a, T* c, T v, int mo, int fmo ) { T o = at_cas< T >( a, *c, v, mo, fmo ); bool ok = o == *c; *c = o; return ok; }
AT( 8, u8 ) AT( 16, u16 ) AT( 32, u32 ) AT( 64, u64 )
typedef unsigned __int128 u128;
AT( 128, u128 )
void __tsan_atomic_thread_fence( int mo )
{
    if ( !g || on_fiber < 0 ) return;
    plain_flush( );
    if ( E.phase == PH_CONC && mo == 5 ) { count_step( true ); sched_point( 0, 0, A_FENCE, mo ); }
    CUR.local = mix2( CUR.local, 9 + mo );
    if ( O.weak && E.phase == PH_CONC ) w_fence( mo );
}
void __tsan_atomic_signal_fence( int ) {}

bool mc_is_lock_free( size_t n, const volatile void* ) asm( "__atomic_is_lock_free" );
bool mc_is_lock_free( size_t n, const volatile void* ) { return n == 1 || n == 2 || n == 4 || n == 8; }
// function-local statics of the code under test
int mc_guard_acquire( u64* gd ) asm( "__cxa_guard_acquire" );
void mc_guard_release( u64* gd ) asm( "__cxa_guard_release" );
void mc_guard_abort( u64* gd ) asm( "__cxa_guard_abort" );
int mc_guard_acquire( u64* gd )
{
    u8* b = (u8*)gd;
    if ( g && on_fiber >= 0 && in_lib( ) ) { at_load< u8 >( b, 2 ); }
    if ( b[0] ) return 0;
    if ( b[1] && g && on_fiber >= 0 ) mc_violation( V_LOCK, "blocks on the initialisation of a static variable" );
    if ( g && on_fiber >= 0 ) xfind( (u64)gd );
    b[1] = 1; return 1;
}
void mc_guard_release( u64* gd ) { u8* b = (u8*)gd; if ( g && on_fiber >= 0 && in_lib( ) ) at_store< u8 >( b, 1, 3 ); b[0] = 1; b[1] = 0; }
void mc_guard_abort( u64* gd ) { ( (u8*)gd )[1] = 0; }
}

// ------------------------------------------------------------------------------------------------ choices
static int ask( int n, int kind )
{
    if ( n <= 1 || E.exlive > 0 ) return 0;     // (no snapshots while an exception is in flight)
    E.choice_n = n; E.choice_kind = kind;
    to_explorer( RQ_CHOICE );
    if ( kind == CH_USER ) CUR.local = mix2( CUR.local, E.choice_ans + 1000 );
    return E.choice_ans;
}
extern "C" int mc_choose( int n ) { plain_flush( ); return ask( n, CH_USER ); }
extern "C" int mc_point( u64 extra, int depth )
{
    plain_flush( ); progress++;
    CUR.acc = CUR.steps = CUR.atoms = 0; CUR.local = 0; CUR.noyield = 0;
    E.point_extra = extra; E.point_cost = depth;
    to_explorer( RQ_POINT );
    return E.must_stop;
}
extern "C" void mc_map_select( int m ) { plain_flush( ); E.mapsel = m; }
extern "C" int mc_mapping( void ) { return E.mapsel; }
extern "C" void mc_fault_set( int mask, int budget ) { E.fmask = mask; if ( budget >= 0 ) E.fbudget = budget; E.ffired = 0; }
extern "C" int mc_fault_left( void ) { return E.fbudget; }
extern "C" int mc_fault_fired( void ) { return E.ffired; }
extern "C" int mc_fault( int kind )
{
    if ( !( E.fmask & kind ) || !E.fbudget || E.exlive > 0 ) return 0;
    plain_flush( );
    if ( !ask( 2, CH_USER ) ) return 0;
    E.fbudget--; E.ffired++; mc_log( "   fault injected: %s", kind == 1 ? "element copy throws" : "no memory" );
    return 1;
}
extern "C" void mc_expect_source( u32 who ) { E.expect_who = who; }
extern "C" void mc_run_threads( void )
{
    plain_flush( );
    to_explorer( RQ_START );
}

// ------------------------------------------------------------------------------------------------ snapshots
struct SnapBuf { char* base; size_t used, cap; };
static SnapBuf sb;
static size_t put( char*& p, const void* s, size_t n ) { memcpy( p, s, n ); p += n; return n; }
#define VARS( OP ) \
    OP( &g->EX, sizeof( Exec ) ) \
    OP( g->blk, E.nblk * sizeof( Block ) ) \
    OP( g->conf, E.nconf * sizeof( Config ) ) \
    if ( nx ) OP( g->xval, nx * 8 ) \
    if ( tlssz ) OP( g->tls, sizeof( g->tls ) ) \
    if ( O.weak ) { OP( &g->W, sizeof( Weak ) ) OP( g->ev, ( g->W.nev + 1 ) * sizeof( Ev ) ) } \
    for ( int t = 0; t < MAXT; t++ ) { u32 b = segbase( t ), n = E.brk[t] - b; if ( n ) { \
        OP( arena + b, n ) OP( g->live + b / 4, ( n + 3 ) / 4 ) OP( g->life + b / 4, ( n + 3 ) / 4 ) \
        if ( O.weak ) OP( g->race + b / 4, ( n + 3 ) / 4 * sizeof( Race ) ) } } \
    for ( int t = 0; t < MAXT; t++ ) if ( E.t[t].state == ST_READY || t == MAINT ) { \
        char* sp = (char*)E.t[t].sp; OP( sp, (size_t)( stack_top( t ) - sp ) ) }

static size_t snap_save( )
{
    size_t start = sb.used;
    if ( sb.used + 1500000 > sb.cap ) internal( "snapshot buffer" );
    for ( u32 i = 0; i < nx; i++ ) memcpy( &g->xval[i], (void*)xaddr[i], 8 );
    char* p = sb.base + sb.used;
#define SV( a, n ) put( p, a, n );
    VARS( SV )
    // the number of extra granules known at this time
    put( p, &nx, 4 );
    sb.used = p - sb.base;
    return start;
}
static u32 snap_nx( size_t end ) { u32 v; memcpy( &v, sb.base + end - 4, 4 ); return v; }
static void snap_restore( size_t at, size_t end )
{
    // memory allocated since must fall back to "zero" shadow
    u32 brk[MAXT]; memcpy( brk, E.brk, sizeof brk );
    u32 knx = nx; u32 snx = snap_nx( end );
    for ( u32 i = snx; i < knx; i++ ) memcpy( (void*)xaddr[i], &xorig[i], 8 );
    nx = snx;                 // VARS uses nx
    char* p = sb.base + at;
#define RS( a, n ) { size_t nn = ( n ); memcpy( (void*)( a ), p, nn ); p += nn; }
    VARS( RS )
    nx = knx;
    for ( u32 i = 0; i < snx; i++ ) memcpy( (void*)xaddr[i], &g->xval[i], 8 );
    for ( int t = 0; t < MAXT; t++ ) {
        u32 b = segbase( t );
        memcpy( g->shadow + b / 4, arena + b, E.brk[t] - b );
        if ( brk[t] > E.brk[t] ) {
            memset( g->live + E.brk[t] / 4, 0, ( brk[t] - E.brk[t] ) / 4 );
            memset( g->shadow + E.brk[t] / 4, 0, brk[t] - E.brk[t] );
            memset( g->race + E.brk[t] / 4, 0, ( brk[t] - E.brk[t] ) / 4 * sizeof( Race ) );
        }
    }
    npw = npatch = 0;
}

// ------------------------------------------------------------------------------------------------ visited table
struct VTab { u64* k; u8* v; u64 cap, n; };
static VTab vt;
static void vt_init( u64 cap )
{
    if ( vt.k ) { munmap( vt.k, vt.cap * 8 ); munmap( vt.v, vt.cap ); }
    vt.cap = cap; vt.n = 0;
    vt.k = (u64*)mmap( 0, cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    vt.v = (u8*)mmap( 0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
}
static void vt_grow( );
// returns true if already visited with at most `cost`
static bool vt_visit( u64 key, u8 cost )
{
    if ( !key ) key = 1;
    if ( vt.n * 10 > vt.cap * 7 ) vt_grow( );
    u64 i = key & ( vt.cap - 1 );
    while ( vt.k[i] && vt.k[i] != key ) i = ( i + 1 ) & ( vt.cap - 1 );
    if ( vt.k[i] == key ) { if ( vt.v[i] <= cost ) return true; vt.v[i] = cost; return false; }
    vt.k[i] = key; vt.v[i] = cost; vt.n++;
    return false;
}
static void vt_grow( )
{
    VTab o = vt; vt.k = 0; vt_init( o.cap * 2 );
    for ( u64 i = 0; i < o.cap; i++ ) if ( o.k[i] ) {
        u64 j = o.k[i] & ( vt.cap - 1 ); while ( vt.k[j] ) j = ( j + 1 ) & ( vt.cap - 1 );
        vt.k[j] = o.k[i]; vt.v[j] = o.v[i]; vt.n++; }
    munmap( o.k, o.cap * 8 ); munmap( o.v, o.cap );
}
static VTab ot; // outcomes
static u64 oset[4096]; static u32 noset;
static void add_outcome( u64 h )
{
    if ( !h ) h = 1; u32 i = h & 4095; if ( noset > 3000 ) return;
    while ( oset[i] && oset[i] != h ) i = ( i + 1 ) & 4095;
    if ( !oset[i] ) { oset[i] = h; noset++; }
}

// ------------------------------------------------------------------------------------------------ explorer
static u64 state_key( bool bounded )
{
    u64 k = E.memhash ^ mix( E.lifehash );
    for ( int t = 0; t < E.nthreads; t++ ) {
        Thr& T = E.t[t];
        k += mix2( mix2( t * 31 + T.state, T.op ), mix2( T.local, T.inv + T.mid * 4 + T.forbid * 16 ) );
        if ( E.brk[t] ) k += mix2( 1234 + t, E.brk[t] );
    }
    if ( O.weak ) k ^= w_hash( );
    else { u64 c = 0; for ( u32 i = 0; i < E.nconf; i++ ) {
            const u64* w = (const u64*)&g->conf[i]; u64 h = 1; for ( size_t j = 0; j < sizeof( Config ) / 8; j++ ) h = ( h ^ w[j] ) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
            c += mix( h ); }
        k ^= c; }
    for ( u32 i = 0; i < nx; i++ ) k ^= mix2( 9000 + i, *(u64*)xaddr[i] );
    if ( tlssz ) for ( int t = 0; t < E.nthreads; t++ ) { u64 h = t; for ( size_t j = 0; j < tlssz; j++ ) h = h * 131 + g->tls[t][j]; k += mix( h ); }
    k = mix2( k, E.spur_used * 256 + E.stale_used );
    if ( O.merge == 2 ) for ( int t = 0; t < E.nthreads; t++ ) k = mix2( k, E.t[t].outcome );
    if ( bounded && E.lastrun != 0xff && E.t[E.lastrun].state == ST_READY && E.t[E.lastrun].mid ) k = mix2( k, E.lastrun + 1 );
    return k;
}
static u32 g_deepest;
static u64 point_key( )
{
    u64 k = ( O.maskhash ? 0 : E.memhash ) ^ mix( E.lifehash );
    if ( O.maskhash ) {       // version tags (the upper halves of granules that hold them) are left out of the key
        u32 b = segbase( MAINT );
        for ( u32 i = b / 4; i < E.brk[MAINT] / 4; i++ ) { u32 v = ( (u32*)arena )[i] & 0xffff; if ( v ) k ^= ghash( i, v ); }
    }
    k = mix2( k, E.brk[MAINT] ); k = mix2( k, E.nodes * 256 + E.liveblk );
    for ( u32 i = 0; i < E.nblk; i++ ) if ( !g->blk[i].live ) k ^= mix2( 555, g->blk[i].off );
    for ( u32 i = 0; i < nx; i++ ) k ^= mix2( 9000 + i, *(u64*)xaddr[i] );
    if ( tlssz ) { u64 h = 5; for ( size_t j = 0; j < tlssz; j++ ) h = h * 131 + g->tls[MAINT][j]; k += mix( h ); }
    return mix2( mix2( k, E.point_extra ), E.fbudget * 256 + E.fmask );
}
struct Frame { size_t snap, snap_end; u8 n, next; u8 req; u8 alt[160]; u8 cost[MAXT]; };
static Frame* frames; static u32 nframes;
enum { MAXFRAMES = 200000 };

static u64 wallms( ) { struct timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts ); return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000; }

static void exec_init( )
{
    memset( &g->EX, 0, sizeof( Exec ) );
    memset( g->shadow, 0, sizeof g->shadow );
    memset( g->live, 0, sizeof g->live );
    memset( g->life, 0, sizeof g->life );
    memset( g->race, 0, sizeof g->race ); memset( &g->W, 0, sizeof g->W );
    memset( g->conf, 0, sizeof( Config ) );
    memset( arena, 0, ARENA );
    for ( int t = 0; t < MAXT; t++ ) { E.brk[t] = segbase( t ) ; if ( tlssz ) memcpy( g->tls[t], g->tls[MAINT], 0 ); }
    E.brk[MAINT] = 64;
    E.nconf = 1; E.phase = PH_SETUP; E.lastrun = 0xff; E.nthreads = O.threads;
    for ( u32 i = 0; i < nx; i++ ) memcpy( (void*)xaddr[i], &xorig[i], 8 );
    npw = npatch = 0;
    fiber_init( MAINT );
}
static char tlsinit[512];

static void print_viol( )
{
    printf( "VIOL kind=%u msg=%s\nTRACE ", violkind, violmsg );
    for ( u32 i = 0; i < E.ntrace; i++ ) printf( "%x,", g->trace[i] );
    printf( "\nVIS " );
    for ( u32 i = 0; i < NGR; i++ ) if ( vis[i] ) printf( "%x,", i );
    printf( "\n" ); fflush( stdout );
}

// runs one thread (or main) until its next request; returns request
static u8 go( int t )
{
    run_fiber( t );
    if ( E.req == RQ_DONE ) { E.t[t].state = ST_DONE; E.t[t].mid = 0; E.t[t].local = 0; }
    return E.req;
}
static void start_threads( )
{
    E.phase = PH_CONC;
    if ( O.weak ) w_start( );
    for ( int t = 0; t < E.nthreads; t++ ) { E.t[t].state = ST_READY; fiber_init( t ); if ( tlssz ) memcpy( g->tls[t], tlsinit, tlssz ); }
}

static bool time_up; static u64 deadline;
// one depth-first exploration with preemption bound pb; returns false if stopped by a cap. *viol set on violation
static bool dfs( int pb, Result& R, bool& viol, const u8* rtrace, int nr )
{
    viol = false; nframes = 0; sb.used = 0; int rp = 0;
    vt_init( 1 << 12 );
    exec_init( );
    if ( tlssz ) { memcpy( tlsinit, g->tls[MAINT], 0 ); for ( int t = 0; t < MAXT; t++ ) memcpy( g->tls[t], tlsptr, tlssz ); memcpy( tlsinit, tlsptr, tlssz ); }
    R.states = R.transitions = R.terminals = R.cut = 0; noset = 0; memset( oset, 0, sizeof oset );
    u8 req = go( MAINT );
    int who = MAINT;
    int pre = -1;    // next thread whose prologue must run
    u64 it = 0;
    for ( ;; ) {
        bool back = false;
        if ( req == RQ_VIOL ) {
            if ( violkind & O.kinds ) { viol = true; return true; }
            R.cut++; back = true;
            if ( rtrace ) return true;
        } else if ( req == RQ_POINT ) {
            bool seen = false;
            E.must_stop = pb >= 0 && E.point_cost >= pb;
            if ( !rtrace ) {
                if ( E.point_cost > g_deepest ) g_deepest = E.point_cost;
                if ( vt_visit( point_key( ), pb >= 0 ? E.point_cost : 0 ) ) seen = true; else R.states++;
                if ( ( ++it & 255 ) == 0 && ( wallms( ) > deadline || R.states > O.maxstates ) ) { time_up = true; return false; }
            }
            if ( !seen ) { who = MAINT; req = go( MAINT ); continue; }
            back = true;
        } else if ( req == RQ_START ) {
            start_threads( ); pre = 0; who = 0; req = go( 0 ); continue;
        } else if ( pre >= 0 && req != RQ_CHOICE ) {
            // prologues: run every thread up to its first shared access
            pre++;
            if ( pre < E.nthreads ) { who = pre; req = go( pre ); continue; }
            pre = -1; E.lastrun = 0xff;
        }
        Frame f; f.n = 0; f.next = 0; f.req = req;
        if ( !back ) {
            if ( req == RQ_END ) {
                R.terminals++;
                u64 h = 0; for ( int t = 0; t < E.nthreads; t++ ) h = mix2( h, E.t[t].outcome );
                add_outcome( h );
                back = true;
                if ( rtrace ) return true;
            } else if ( req == RQ_CHOICE ) {
                if ( E.choice_n > 64 ) internal( "too many alternatives" );
                if ( E.choice_n > 160 ) internal( "too many alternatives" );
                for ( int i = 0; i < E.choice_n; i++ ) f.alt[f.n++] = i;
                f.req = RQ_CHOICE;
            } else {
                // scheduling decision
                bool any = false;
                for ( int t = 0; t < E.nthreads; t++ ) any |= E.t[t].state == ST_READY;
                if ( !any ) {
                    E.phase = PH_FINAL; E.t[MAINT].acc = 0;
                    if ( O.weak ) w_join( );
                    who = MAINT; req = go( MAINT ); continue;
                }
                bool mid = E.lastrun != 0xff && E.t[E.lastrun].state == ST_READY && E.t[E.lastrun].mid;
                if ( !rtrace ) {
                    if ( O.merge && vt_visit( state_key( pb >= 0 ), pb >= 0 ? E.preempt : 0 ) ) back = true;
                    else { R.states++; }
                }
                if ( !back ) {
                    if ( mid ) { f.alt[f.n] = E.lastrun; f.cost[f.n++] = 0; }
                    for ( int t = 0; t < E.nthreads; t++ )
                        if ( E.t[t].state == ST_READY && !( mid && t == E.lastrun ) ) {
                            int c = mid ? 1 : 0;
                            if ( pb >= 0 && E.preempt + c > pb ) continue;
                            f.alt[f.n] = t; f.cost[f.n++] = c;
                        }
                    f.req = RQ_SCHED;
                }
            }
        }
        if ( !rtrace && ( ++it & 255 ) == 0 && ( wallms( ) > deadline || R.states > O.maxstates ) ) { time_up = true; return false; }
        int choice = -1; u8 creq = 0, ccost = 0;
        if ( !back ) {
            if ( rtrace ) {
                if ( rp >= nr ) { printf( "(trace exhausted)\n" ); return true; }
                int want = rtrace[rp++];
                for ( int i = 0; i < f.n; i++ ) if ( f.alt[i] == want ) { choice = want; ccost = f.req == RQ_CHOICE ? 0 : f.cost[i]; }
                if ( choice < 0 ) internal( "replay diverges" );
                creq = f.req;
            } else {
                if ( f.n > 1 ) {
                    if ( nframes >= MAXFRAMES || sb.used + 3000000 > sb.cap ) { time_up = true; return false; }
                    f.snap = snap_save( ); f.snap_end = sb.used; f.next = 1;
                    frames[nframes++] = f;
                }
                choice = f.alt[0]; ccost = f.req == RQ_CHOICE ? 0 : f.cost[0]; creq = f.req;
            }
        } else {
            for ( ;; ) {
                if ( !nframes ) return true;
                Frame& F = frames[nframes - 1];
                if ( F.next < F.n ) {
                    snap_restore( F.snap, F.snap_end );
                    choice = F.alt[F.next]; creq = F.req; ccost = creq == RQ_CHOICE ? 0 : F.cost[F.next]; F.next++;
                    if ( F.next == F.n ) { sb.used = F.snap; nframes--; }
                    break;
                }
                sb.used = F.snap; nframes--;
            }
            pre = -1;
        }
        R.transitions++;
        if ( E.ntrace >= MAXTRACE ) { time_up = true; return false; }
        g->trace[E.ntrace++] = choice;
        if ( E.ntrace > R.maxdepth ) R.maxdepth = E.ntrace;
        if ( creq == RQ_SCHED ) {
            E.preempt += ccost; E.lastrun = choice; who = choice;
            if ( verbose && rtrace ) { Thr& T = E.t[who]; (void)T; }
            req = go( who );
        } else {
            E.choice_ans = choice; who = E.cur;
            req = go( who );
        }
    }
}
static void init_once( )
{
    static bool done; if ( done ) return; done = true;
    int fd = memfd_create( "arena", 0 );
    if ( ftruncate( fd, ARENA ) ) internal( "ftruncate" );
    arena = (char*)mmap( (void*)MAP_A, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0 );
    arenaB = (char*)mmap( (void*)MAP_B, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0 );
    if ( arena == MAP_FAILED || arenaB == MAP_FAILED ) internal( "mmap arena" );
    stacks = (char*)mmap( (void*)0x300000000000ull, STK * ( MAXT + 1 ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0 );
    emerg = stacks + STK * MAXT;
    G* gg = (G*)mmap( (void*)0x310000000000ull, sizeof( G ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0 );
    sb.cap = 4ull << 30;
    sb.base = (char*)mmap( 0, sb.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    frames = (Frame*)__libc_malloc( sizeof( Frame ) * MAXFRAMES );
    g = gg;
    static char alt[65536];
    stack_t ss; memset( &ss, 0, sizeof ss ); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack( &ss, 0 );
    struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction( SIGSEGV, &sa, 0 ); sigaction( SIGBUS, &sa, 0 ); sigaction( SIGFPE, &sa, 0 ); sigaction( SIGILL, &sa, 0 ); sigaction( SIGABRT, &sa, 0 ); sigaction( SIGTRAP, &sa, 0 );
    sa.sa_sigaction = on_alarm; sigaction( SIGALRM, &sa, 0 );
    struct itimerval itv = { { 0, 500000 }, { 0, 500000 } }; setitimer( ITIMER_REAL, &itv, 0 );
    std::set_terminate( []( ) { if ( on_fiber >= 0 ) mc_violation( V_EXC, "exception escaped / std::terminate called" ); _exit( 3 ); } );
    extern char __data_start, _end; dlo = (u64)&__data_start; dhi = (u64)&_end;
    dl_iterate_phdr( []( struct dl_phdr_info* i, size_t, void* ) {
        if ( !i->dlpi_name[0] ) for ( int k = 0; k < i->dlpi_phnum; k++ ) if ( i->dlpi_phdr[k].p_type == PT_TLS ) {
            tlssz = i->dlpi_phdr[k].p_memsz; tlsptr = (char*)i->dlpi_tls_data; }
        return 1; }, 0 );
    if ( tlssz > 512 ) internal( "tls too large" );
}
u64 mc_object_base( void ) { return MAP_A; }
static void reset_persist( )
{
    memset( rmask, 0, sizeof rmask ); memset( wmask, 0, sizeof wmask ); memset( vis, 0, sizeof vis );
    for ( u32 i = 0; i < nx; i++ ) memcpy( (void*)xaddr[i], &xorig[i], 8 );
    nx = 0; memset( gidmap, 0, sizeof gidmap ); ngid = 0; g_maxsteps = g_maxatoms = 0;
}
Result mc_explore( const Harness& h, const Spec& s, const Options& o )
{
    init_once( ); H = &h; S = s; O = o;
    reset_persist( );
    Result R; time_up = false; deadline = wallms( ) + (u64)( o.maxtime * 1000 );
    int bounds[8]; int nb = 0;
    if ( !o.threads ) { for ( int p = 2; p <= 6; p += 2 ) if ( o.pbound < 0 || p < o.pbound ) bounds[nb++] = p; }
    else for ( int p = 1; p <= 4; p++ ) if ( o.pbound < 0 ? p <= 2 : p < o.pbound ) bounds[nb++] = p;
    bounds[nb++] = o.pbound;
    int done = -2; u64 tot = 0; Result last;
    for ( int i = 0; i < nb; i++ ) {
        for ( ;; ) {
            newvis = false; bool viol; Result r;
            bool ok = dfs( bounds[i], r, viol, 0, 0 );
            tot += r.transitions; R.runs++;
            r.outcomes = noset; 
            if ( viol && newvis ) continue;        // repeat with the final set of scheduling points, so that the trace replays
            if ( viol ) {
                printf( "BOUND p=%d\n", bounds[i] );
                print_viol( ); fflush( stdout ); _exit( 10 );
            }
            if ( !ok ) { R.complete = false; if ( r.states > R.states ) { R.states = r.states; } R.transitions = tot; R.cut += r.cut; 
                if ( r.terminals > R.terminals ) R.terminals = r.terminals; if ( r.outcomes > R.outcomes ) R.outcomes = r.outcomes; goto out; }
            if ( newvis ) continue;
            if ( !r.terminals && !r.cut ) internal( "no execution ran to its end" );
            last = r; done = bounds[i]; break;
        }
        R.states = last.states; R.terminals = last.terminals; R.outcomes = last.outcomes; R.cut = last.cut; R.maxdepth = last.maxdepth; R.complete = i == nb - 1;
    }
    R.transitions = tot;
out:
    printf( "RESULT states=%llu transitions=%llu terminals=%llu outcomes=%llu cut=%llu runs=%llu bound=%d complete=%d maxsteps=%u maxatoms=%u depth=%u\n",
            (unsigned long long)R.states, (unsigned long long)R.transitions, (unsigned long long)R.terminals,
            (unsigned long long)R.outcomes, (unsigned long long)R.cut, (unsigned long long)R.runs, done, R.complete, g_maxsteps, g_maxatoms, R.maxdepth );
    fflush( stdout );
    return R;
}
bool mc_replay( const Harness& h, const Spec& s, const Options& o, const u8* tr, int n, const u32* v, int nv )
{
    init_once( ); H = &h; S = s; O = o; reset_persist( );
    for ( int i = 0; i < nv; i++ ) vis[v[i]] = 1;
    bool viol; Result r; verbose = true; deadline = ~0ull;
    dfs( o.pbound, r, viol, tr, n );
    if ( newvis ) printf( "(visibility changed)\n" );
    if ( viol ) printf( "REPRODUCED kind=%u msg=%s\n", violkind, violmsg ); else printf( "NOT REPRODUCED\n" );
    fflush( stdout );
    return viol;
}
