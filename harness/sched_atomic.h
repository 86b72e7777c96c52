// Every atomic operation of the code under test becomes a scheduling point.
#ifndef SCHED_ATOMIC_H
#define SCHED_ATOMIC_H
#include "atomic.h"
void sched_point(void);
void sched_load_point(const void *addr);
void sched_yield_point(void);
int sched_spurious(void);
#undef load
#undef store
#undef exchange
#undef compare_exchange_weak
#undef compare_exchange_strong
#undef fetch_add
#undef fetch_sub
#undef fetch_or
#undef fetch_xor
#undef fetch_and
#undef spin_loop
#define load(obj, order) \
	({ sched_load_point((const void *)(obj)); atomic_load_explicit(obj, memory_order_##order); })
#define SCHED_OP(e) ({ sched_point(); __auto_type sr_ = (e); sched_point(); sr_; })
#define store(obj, value, order) \
	({ sched_point(); atomic_store_explicit(obj, value, memory_order_##order); sched_point(); })
#define exchange(obj, value, order) SCHED_OP(atomic_exchange_explicit(obj, value, memory_order_##order))
#define compare_exchange_weak(obj, expected, desired, succ, fail) \
	({ sched_point(); \
	   bool sr_ = false; \
	   if (sched_spurious()) *(expected) = atomic_load_explicit(obj, memory_order_relaxed); \
	   else sr_ = atomic_compare_exchange_strong_explicit(obj, expected, desired, memory_order_seq_cst, memory_order_relaxed); \
	   sched_point(); sr_; })
#define compare_exchange_strong(obj, expected, desired, succ, fail) \
	SCHED_OP(atomic_compare_exchange_strong_explicit(obj, expected, desired, memory_order_seq_cst, memory_order_relaxed))
#define fetch_add(obj, arg, order) SCHED_OP(atomic_fetch_add_explicit(obj, arg, memory_order_seq_cst))
#define fetch_sub(obj, arg, order) SCHED_OP(atomic_fetch_sub_explicit(obj, arg, memory_order_seq_cst))
#define fetch_or(obj, arg, order) SCHED_OP(atomic_fetch_or_explicit(obj, arg, memory_order_seq_cst))
#define fetch_xor(obj, arg, order) SCHED_OP(atomic_fetch_xor_explicit(obj, arg, memory_order_seq_cst))
#define fetch_and(obj, arg, order) SCHED_OP(atomic_fetch_and_explicit(obj, arg, memory_order_seq_cst))
#define spin_loop() sched_yield_point()
#endif
