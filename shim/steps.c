/* Scheduling points inside library code (build.sh, steps-rustc.sh). In the library and the generic code it
 * is made of the compiler places calls to the functions below: at every basic block, at every load and
 * store, and in the place of every atomic access. A thread that is armed counts blocks, or accesses to
 * memory that threads share, and gives way to the simulator's scheduler when its count is used up. */
#include <stdint.h>

static __thread long left; /* > 0: blocks, < 0: shared accesses */
extern void minsim_step_due(void);
extern char __data_start, _end;

/* Sets the count (0: none) and returns what was left of the last one. */
long minsim_arm(long n)
{
	long l = left;
	left = n;
	return l;
}

void __sanitizer_cov_trace_pc(void)
{
	if (left > 0 && --left == 0)
		minsim_step_due();
}

static inline void touch(void)
{
	if (left < 0 && ++left == 0)
		minsim_step_due();
}

/* Plain accesses count where they go to static memory. */
#define PLAIN(n) \
	void __sanitizer_cov_load##n(char *p) { if (p >= &__data_start && p < &_end) touch(); } \
	void __sanitizer_cov_store##n(char *p) { if (p >= &__data_start && p < &_end) touch(); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)

#define RMW(bits, name, op) \
	uint##bits##_t __tsan_atomic##bits##_##name(volatile uint##bits##_t *a, uint##bits##_t v, int mo) \
	{ touch(); return op(a, v, __ATOMIC_SEQ_CST); }
#define CAS(bits, name) \
	int __tsan_atomic##bits##_##name(volatile uint##bits##_t *a, uint##bits##_t *c, uint##bits##_t v, int mo, int fmo) \
	{ touch(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
#define ATOMIC(bits) \
	uint##bits##_t __tsan_atomic##bits##_load(const volatile uint##bits##_t *a, int mo) \
	{ touch(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile uint##bits##_t *a, uint##bits##_t v, int mo) \
	{ touch(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	uint##bits##_t __tsan_atomic##bits##_compare_exchange_val(volatile uint##bits##_t *a, uint##bits##_t c, uint##bits##_t v, int mo, int fmo) \
	{ touch(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
	CAS(bits, compare_exchange_strong) CAS(bits, compare_exchange_weak) \
	RMW(bits, exchange, __atomic_exchange_n) RMW(bits, fetch_add, __atomic_fetch_add) RMW(bits, fetch_sub, __atomic_fetch_sub) \
	RMW(bits, fetch_and, __atomic_fetch_and) RMW(bits, fetch_or, __atomic_fetch_or) RMW(bits, fetch_xor, __atomic_fetch_xor) \
	RMW(bits, fetch_nand, __atomic_fetch_nand)
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)

void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { }
void __tsan_init(void) { }
