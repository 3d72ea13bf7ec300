// Force-included before everything else in instrumented translation units: lets the runtime know whether a
// compare-exchange may fail spuriously (LLVM's thread-sanitizer interface drops that), and lets it fail so.
#pragma once
#include <stddef.h>
extern "C" void mc_cas_pre( int weak );
extern "C" bool mc_cas_post( bool ok, void* expected, size_t n );
#define __atomic_compare_exchange( p, e, d, w, s, f ) \
    ( mc_cas_pre( w ), mc_cas_post( __atomic_compare_exchange( p, e, d, w, s, f ), (void*)( e ), sizeof( *( e ) ) ) )
#define __atomic_compare_exchange_n( p, e, d, w, s, f ) \
    ( mc_cas_pre( w ), mc_cas_post( __atomic_compare_exchange_n( p, e, d, w, s, f ), (void*)( e ), sizeof( *( e ) ) ) )
