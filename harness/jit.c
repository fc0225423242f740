/* LD_PRELOAD: schedule perturbation. Every allocation may yield or sleep, so that threads of the
 * module under test are preempted between and inside its critical sections. */
#define _GNU_SOURCE
#include <sched.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
static volatile int level;
static volatile unsigned long hits;
static __thread uint32_t st __attribute__((tls_model("initial-exec")));
void kvjit_level(int l) { level = l; }
unsigned long kvjit_hits(void) { return hits; }
static inline void jit(void) {
    int l = level;
    if (!l) return;
    if (!st) st = (uint32_t)(uintptr_t)&st * 2654435761u ^ (uint32_t)time(NULL) | 1;
    st ^= st << 13; st ^= st >> 17; st ^= st << 5;
    uint32_t x = st >> 8;
    if (x % (4096 / (1u << l)) == 0) {
        hits++;
        struct timespec t = {0, 1000 * (5 + (x >> 12) % 60)};
        if (x & 0x800) sched_yield(); else nanosleep(&t, NULL);
    }
}
void *malloc(size_t n) { jit(); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { jit(); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { jit(); return __libc_realloc(p, n); }
void free(void *p) { if (st & 4) jit(); __libc_free(p); }
