// Shared part of the concurrent harnesses: scenario language, batch driver.
#pragma once
#include "rt.h"
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

// payload types. id 0 is never used.
struct P1 { u32 a; };
struct P2 { u32 a, b; };
static inline u32 enc( u8 id ) { return 0xA5C30000u | id; }
template < class P > struct Pay;
template <> struct Pay< P1 > {
    static P1 make( u8 id ) { P1 p; p.a = enc( id ); return p; }
    static u8 get( const P1& p ) { if ( ( p.a & ~0xffu ) != enc( 0 ) ) mc_violation( V_LIN, "corrupted element 0x%x delivered", p.a ); return (u8)p.a; }
};
template <> struct Pay< P2 > {
    static P2 make( u8 id ) { P2 p; p.a = enc( id ); p.b = ~enc( id ); return p; }
    static u8 get( const P2& p ) { if ( ( p.a & ~0xffu ) != enc( 0 ) || p.b != ~p.a ) mc_violation( V_LIN, "corrupted element 0x%x/0x%x delivered", p.a, p.b ); return (u8)p.a; }
};
// element with tracked lifetime (stack, spsc_queue)
struct PT {
    u32 a;
    explicit PT( u8 id ) : a( enc( id ) ) { mc_obj( this, 1 ); }
    PT( ) : a( 0 ) { mc_obj( this, 1 ); }
    PT( PT const& o ) { mc_copied( ); mc_obj( &o, 0 ); a = o.a; mc_obj( this, 1 ); }
    PT& operator=( PT const& o ) { mc_copied( ); mc_obj( &o, 0 ); mc_obj( this, 0 ); a = o.a; return *this; }
    ~PT( ) { mc_obj( this, -1 ); a = 0xDEADDEAD; }
};
template <> struct Pay< PT > {
    static PT make( u8 id ) { return PT( id ); }
    static u8 get( const PT& p ) { mc_obj( &p, 0 ); if ( ( p.a & ~0xffu ) != enc( 0 ) ) mc_violation( V_LIN, "corrupted element 0x%x delivered", p.a ); return (u8)p.a; }
};
// conversion target: its assignment is the delivery of the payload
template < class P > struct Out {
    u8 id;
    Out( ) : id( 0 ) {}
    Out( P const& p ) { mc_payload( &p, sizeof( P ) ); id = Pay< P >::get( p ); }
    Out& operator=( P const& p ) { mc_payload( &p, sizeof( P ) ); id = raw( p ); return *this; }
    static u8 raw( P const& p ) { u32 v = p.a; return ( v & ~0xffu ) == enc( 0 ) ? (u8)v : 0; }   // speculative copies may be torn
};
template <> inline u8 Out< P2 >::raw( P2 const& p ) { u32 v = p.a, w = p.b; return ( v & ~0xffu ) == enc( 0 ) && w == ~v ? (u8)v : 0; }

enum { MAXB = 72 };                    // elements in one batch
struct Tok { char op; u8 id; u8 nid; int n; };
enum { MAXTOK = 64 };
struct Scn {
    char cfg[32]; int n;               // configuration name, size parameter
    Tok init[MAXTOK]; int ninit;
    Tok th[4][MAXTOK]; int nth[4]; int threads;
    Options o; int allocrule; int tagwrap; int nofinal;
    char ops[400]; int nodelimit, fmask, fbudget, ctor;   // sequence mode
};
static Scn scn;
static bool is_push_tok( char c );     // harness-specific: number of ids a token consumes is n (or 1)

static int parse_toks( const char* s, const char* e, Tok* t, int& id )
{
    int k = 0;
    while ( s < e ) {
        if ( *s == '.' ) { s++; continue; }
        Tok x; x.op = *s++; x.n = 1;
        if ( s < e && *s >= '0' && *s <= '9' ) { x.n = 0; while ( s < e && *s >= '0' && *s <= '9' ) x.n = x.n * 10 + ( *s++ - '0' ); }
        x.id = id; x.nid = 0;
        if ( is_push_tok( x.op ) ) { x.nid = x.n; id += x.n; }
        if ( k >= MAXTOK ) { fprintf( stderr, "too many tokens\n" ); exit( 3 ); }
        t[k++] = x;
    }
    return k;
}
static void parse( const char* line )
{
    memset( &scn, 0, sizeof scn ); scn.o = Options( ); scn.o.threads = 0;
    char buf[1024]; strncpy( buf, line, 1023 ); buf[1023] = 0; int id = 1;
    for ( char* p = strtok( buf, " \n" ); p; p = strtok( 0, " \n" ) ) {
        char* v = strchr( p, '=' ); if ( !v ) continue; *v++ = 0; const char* e = v + strlen( v );
        if ( !strcmp( p, "cfg" ) ) { strncpy( scn.cfg, v, 31 ); }
        else if ( !strcmp( p, "n" ) ) scn.n = atoi( v );
        else if ( !strcmp( p, "i" ) ) scn.ninit = parse_toks( v, e, scn.init, id );
        else if ( !strcmp( p, "T" ) ) { int t = scn.threads++; scn.nth[t] = parse_toks( v, e, scn.th[t], id ); }
        else if ( !strcmp( p, "p" ) ) scn.o.pbound = atoi( v );
        else if ( !strcmp( p, "s" ) ) scn.o.spurious = atoi( v );
        else if ( !strcmp( p, "w" ) ) { scn.o.weak = true; scn.o.stale = atoi( v ); }
        else if ( !strcmp( p, "g" ) ) scn.o.gran = atoi( v );
        else if ( !strcmp( p, "race" ) ) scn.o.strict_race = atoi( v );
        else if ( !strcmp( p, "k" ) ) scn.o.kinds = strtoul( v, 0, 0 );
        else if ( !strcmp( p, "time" ) ) scn.o.maxtime = atof( v );
        else if ( !strcmp( p, "cap" ) ) scn.o.stepcap = atoi( v );
        else if ( !strcmp( p, "wf" ) ) scn.o.wfcap = atoi( v );
        else if ( !strcmp( p, "m" ) ) scn.o.merge = atoi( v );
        else if ( !strcmp( p, "map" ) ) scn.o.mapping = atoi( v );
        else if ( !strcmp( p, "ar" ) ) scn.allocrule = atoi( v );
        else if ( !strcmp( p, "tw" ) ) scn.tagwrap = atoi( v );
        else if ( !strcmp( p, "ops" ) ) { if ( strlen( v ) > 399 ) { fprintf( stderr, "operation list too long\n" ); exit( 3 ); } strcpy( scn.ops, v ); }
        else if ( !strcmp( p, "d" ) ) scn.o.pbound = atoi( v );
        else if ( !strcmp( p, "nl" ) ) scn.nodelimit = atoi( v );
        else if ( !strcmp( p, "fm" ) ) scn.fmask = atoi( v );
        else if ( !strcmp( p, "fb" ) ) scn.fbudget = atoi( v );
        else if ( !strcmp( p, "mask" ) ) scn.o.maskhash = atoi( v );
        else if ( !strcmp( p, "ct" ) ) scn.ctor = atoi( v );
        else if ( !strcmp( p, "nf" ) ) scn.nofinal = atoi( v );
        else { fprintf( stderr, "unknown option %s\n", p ); exit( 3 ); }
    }
    scn.o.threads = scn.threads;
}
struct Binding { const char* cfg; void ( *main_fn )( ); void ( *thread_fn )( int ); Spec ( *spec )( ); };
static const Binding* find_binding( const char* );

static void child( const char* line )
{
    mc_scenario_text = line;
    parse( line );
    const Binding* b = find_binding( scn.cfg );
    if ( !b ) { printf( "INTERNAL no configuration %s\n", scn.cfg ); fflush( stdout ); _exit( 3 ); }
    Harness h{ b->main_fn, b->thread_fn };
    mc_explore( h, b->spec( ), scn.o );
    fflush( stdout ); _exit( 0 );
}
static int conc_main( int ac, char** av )
{
    setvbuf( stdout, 0, _IOFBF, 1 << 16 );
    if ( ac >= 3 && !strcmp( av[1], "run" ) ) child( av[2] );
    if ( ac >= 5 && !strcmp( av[1], "replay" ) ) {
        parse( av[2] ); mc_scenario_text = av[2];
        const Binding* b = find_binding( scn.cfg ); if ( !b ) return 3;
        static u8 tr[200001]; int n = 0; static u32 vis[70000]; int nv = 0;
        for ( char* p = strtok( av[3], "," ); p; p = strtok( 0, "," ) ) tr[n++] = strtoul( p, 0, 16 );
        for ( char* p = strtok( av[4], "," ); p; p = strtok( 0, "," ) ) vis[nv++] = strtoul( p, 0, 16 );
        Harness h{ b->main_fn, b->thread_fn };
        Options o = scn.o; if ( ac >= 6 ) o.pbound = atoi( av[5] );
        return mc_replay( h, b->spec( ), o, tr, n, vis, nv ) ? 10 : 0;
    }
    // batch: one scenario per input line
    char line[1024];
    while ( fgets( line, sizeof line, stdin ) ) {
        line[strcspn( line, "\n" )] = 0; if ( !line[0] ) continue;
        fflush( stdout );
        pid_t p = fork( );
        if ( !p ) child( line );
        int st; waitpid( p, &st, 0 );
        printf( "END %d\n", WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st ) ); fflush( stdout );
    }
    return 0;
}
