// Stand-in for Boost.Atomic in instrumented builds with BOOST_LOCKFREE_FORCE_BOOST_ATOMIC: the runtime observes std::atomic.
#pragma once
#include <atomic>
namespace boost {
using std::atomic;
using std::atomic_bool;
using std::atomic_thread_fence;
using std::memory_order;
using std::memory_order_acq_rel;
using std::memory_order_acquire;
using std::memory_order_consume;
using std::memory_order_relaxed;
using std::memory_order_release;
using std::memory_order_seq_cst;
} // namespace boost
