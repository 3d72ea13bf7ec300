// Interface between the model-checking runtime (rt.cpp) and the instrumented harnesses.
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

enum { MAXT = 5, MAINT = 4 };            // up to 4 client threads, slot 4 is the main (setup/final) fiber

// specification-level operation kinds
enum Kind : u8 { K_NONE, K_PUSH, K_POP, K_SUBPOP, K_POPALL, K_POPALLR, K_POPN, K_EMPTY, K_RAVAIL, K_WAVAIL, K_FRONT,
                 K_RESERVE, K_ALLOC, K_FREE, K_NOP };

// violation kinds (bit mask)
enum Viol : u32 {
    V_LIN = 1,        // result not explained by the sequential specification
    V_MEM = 2,        // access to memory that is not live, or a crash
    V_ASSERT = 4,     // assertion of the code under test
    V_NONTERM = 8,    // operation exceeded the step bound while others are suspended
    V_STUCK = 16,     // operation exceeded the step bound although nobody else is active
    V_CAP = 32,       // capacity not exact / nodes lost
    V_LEAK = 64,      // memory not returned / returned twice / wrong size
    V_ALLOC = 128,    // allocation or release of memory where forbidden
    V_LIFE = 256,     // element lifetime
    V_RACE = 512,     // happens-before race
    V_LOCK = 1024,    // lock used
    V_EXC = 2048,     // exception misbehaviour
    V_WAITFREE = 4096,// too many own steps
    V_MAP = 8192,     // access through the wrong mapping
    V_SRC = 16384,    // memory obtained from elsewhere than the given allocator
    V_RESULT = 32768, // sequential result mismatch
    V_LOCKFREE = 65536,
};

struct Spec {
    u8  lifo;      // 0 FIFO, 1 LIFO, 2 POOL (set of ids)
    u8  nodes;     // node-holding semantics (queue/stack): operations in flight may hold nodes
    u16 cap;       // hard capacity, 0xffff: unlimited
    u8  dummy;     // nodes used internally (queue: 1)
    u8  allocrule; // check "allocates only if no free node available"
};

extern "C" {
// --- called by harness code, in fibers ---
void mc_invoke( int kind, int n, const u8* vals, int bounded );   // announce an operation
void mc_respond( int count, const u8* vals, int nvals );          // its result
void mc_enter( void );                                            // entering code under test
void mc_leave( void );
int  mc_choose( int n );                                          // nondeterministic choice (sequence mode)
void mc_violation( u32 kind, const char* fmt, ... );
void mc_forbid_alloc( int on );
void mc_run_threads( void );                                      // main fiber: explore, returns when all threads are done
void mc_obj( const void* addr, int what );                        // element lifetime: +1 constructed, -1 destroyed, 0 used
void mc_payload( const void* addr, size_t n );                    // delivered payload read at addr
void mc_commit( void );                                           // the last payload read was delivered
void* mc_raw_alloc( size_t n, size_t align );                     // arena memory for the container object itself
void  mc_raw_free( void* p );
u32  mc_nodes( void );                                            // live allocations made by code under test
u32  mc_live_blocks( void );
u64  mc_user_alloc( u32 who, size_t bytes, size_t align );        // user allocator
void mc_user_free( u32 who, void* p, size_t bytes );
int  mc_point( u64 extra, int depth );                            // sequence mode: state between two operations; 1: stop here
void mc_map_select( int m ); int mc_mapping( void );               // sequence mode: mapping used by the following operation
void mc_fault_set( int mask, int budget ); int mc_fault_left( void ); int mc_fault_fired( void ); int mc_fault( int kind ); // 1: element copy, 2: memory
void mc_expect_source( u32 who );                                 // all memory must come from this allocator instance
void mc_exact_alignment( int on );
void mc_log( const char* fmt, ... );
void mc_forbid_heap( int on );
int mc_live_objs( void );
void mc_copied( void ); u32 mc_copies( int reset );                 // element copies made by code under test
void mc_macro( int on );                                          // the enclosed code is one indivisible step
// noted by the CAS wrapper in prelude.h
void mc_cas_pre( int weak );
bool mc_cas_post( bool ok, void* expected, size_t n );
}

struct Options {
    int  threads = 2;
    int  pbound  = -1;      // preemptions, -1 unlimited
    int  spurious = 0;      // budget of spurious CAS failures
    int  stale = 0;         // budget of stale reads (weak mode)
    bool weak = false;
    int  gran = 8;          // weak mode granule
    bool strict_race = false;
    u32  kinds = ~0u;       // violations that count
    int  stepcap = 400;
    int  wfcap = 0;         // if >0: own atomic step limit per operation
    u64  maxstates = 40000000;
    double maxtime = 1e9;
    int  merge = 1;         // 0: no state merging, 2: merge only states with equal results so far (self-tests)
    int  maskhash = 0;      // sequence mode: leave version tags out of the state key
    int  mapping = 0;       // 1: odd threads use the second mapping
};

struct Result {
    u64 states = 0, transitions = 0, terminals = 0, outcomes = 0, cut = 0, runs = 0;
    bool complete = false;
    u32 maxsteps = 0, maxdepth = 0;
};

// --- harness callbacks ---
struct Harness {
    void ( *main_fn )( void );        // setup(); mc_run_threads(); final();
    void ( *thread_fn )( int t );
};

Result mc_explore( const Harness& h, const Spec& s, const Options& o );
bool   mc_replay( const Harness& h, const Spec& s, const Options& o, const u8* trace, int n, const u32* vis, int nvis );   // verbose
u64    mc_arena_base( int mapping );
u64    mc_object_base( void );
extern const char* mc_scenario_text;
