/* Step counter of the "cost" build: every basic-block edge the compiler instrumented, and eight bytes of every bulk
 * memory operation, count as one step of the calling thread. */
#include <stddef.h>
#include <stdint.h>

static __thread uint64_t steps;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; steps++; }

void *__real_memmove(void *, const void *, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real_bcmp(const void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) { steps += n / 8; return __real_memmove(d, s, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { steps += n / 8; return __real_memcpy(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { steps += n / 8; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { steps += n / 8; return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { steps += n / 8; return __real_bcmp(a, b, n); }

uint64_t treena_mc_steps(void) { return steps; }
void treena_mc_add_steps(uint64_t n) { steps += n; }
