// Driver for the enumerators that need no scheduler: same line protocol as the instrumented harnesses.
#pragma once
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
static u64 n_states, n_trans, n_term;
static bool n_replay; static int n_kind;
static void nviol( const char* fmt, ... )
{
    char m[600]; va_list ap; va_start( ap, fmt ); vsnprintf( m, sizeof m, fmt, ap ); va_end( ap );
    if ( n_replay ) printf( "REPRODUCED kind=%d msg=%s\n", n_kind, m );
    else printf( "BOUND p=-1\nVIOL kind=%d msg=%s\nTRACE -\nVIS -\n", n_kind, m );
    fflush( stdout ); _exit( 10 );
}
static void n_crash( int s ) { nviol( "crash (signal %d)", s ); }
extern "C" void __assert_fail( const char* a, const char* f, unsigned l, const char* ) throw( ) { nviol( "assertion failed: %s (%s:%u)", a, f, l ); abort( ); }
static const char* arg( const char* line, const char* key )
{
    static char buf[8][200]; static int k; char* b = buf[k++ & 7];
    size_t kl = strlen( key ); b[0] = 0;
    for ( const char* p = line; ( p = strstr( p, key ) ); p += kl )
        if ( ( p == line || p[-1] == ' ' ) && p[kl] == '=' ) { size_t n = strcspn( p + kl + 1, " \n" ); memcpy( b, p + kl + 1, n ); b[n] = 0; break; }
    return b;
}
static u64 argn( const char* line, const char* key, u64 d = 0 ) { const char* v = arg( line, key ); return v[0] ? strtoull( v, 0, 0 ) : d; }
static void run_line( const char* line );     // supplied by the enumerator
static void n_child( const char* line )
{
    signal( SIGSEGV, n_crash ); signal( SIGBUS, n_crash ); signal( SIGABRT, n_crash ); signal( SIGFPE, n_crash ); signal( SIGILL, n_crash );
    signal( SIGALRM, []( int ) { nviol( "does not terminate" ); } ); alarm( 400 );
    run_line( line );
    if ( n_replay ) { printf( "NOT REPRODUCED\n" ); fflush( stdout ); _exit( 0 ); }
    printf( "RESULT states=%llu transitions=%llu terminals=%llu outcomes=1 cut=0 runs=1 bound=-1 complete=1 maxsteps=0 maxatoms=0 depth=0\n", (unsigned long long)n_states, (unsigned long long)n_trans, (unsigned long long)n_term );
    fflush( stdout ); _exit( 0 );
}
int main( int ac, char** av )
{
    if ( ac >= 3 && !strcmp( av[1], "run" ) ) n_child( av[2] );
    if ( ac >= 3 && !strcmp( av[1], "replay" ) ) { n_replay = true; printf( "scenario %s\n", av[2] ); n_child( av[2] ); }
    char line[1024];
    while ( fgets( line, sizeof line, stdin ) ) {
        line[strcspn( line, "\n" )] = 0; if ( !line[0] ) continue;
        fflush( stdout );
        pid_t p = fork( );
        if ( !p ) n_child( line );
        int st; waitpid( p, &st, 0 );
        printf( "END %d\n", WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st ) ); fflush( stdout );
    }
}
