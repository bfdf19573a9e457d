/* Callbacks of the coverage instrumentation: each basic block, and each load or store of memory
 * that is not on the thread's own stack, becomes a scheduling point while `level` says so.
 * Compiled by gcc, uninstrumented, so that the callbacks do not call themselves. */
#include <stddef.h>
#include <stdint.h>

extern void mc_point(void);
extern char __data_start, _end;

static __thread int level;
static __thread char *stack_top;

void mc_level(int l) { level = l; }
int mc_level_now(void) { return level; }
void mc_stack(void *top) { stack_top = top; }

static void point(void) {
    int l = level;
    level = 0;
    mc_point();
    level = l;
}

/* Allocations are points from level 1 on */
static void alloc_point(void) {
    if (level >= 1)
        point();
}

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), __libc_free(void *);
void *malloc(size_t n) {
    alloc_point();
    return __libc_malloc(n);
}
void *calloc(size_t n, size_t m) {
    alloc_point();
    return __libc_calloc(n, m);
}
void *realloc(void *p, size_t n) {
    alloc_point();
    return __libc_realloc(p, n);
}
void free(void *p) {
    alloc_point();
    __libc_free(p);
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    for (; a < b; a++)
        *a = 1;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    (void)guard;
    if (level >= 2)
        point();
}

static void access_(char *p) {
    char here;
    if (level == 0)
        return;
    if (p >= &here - 65536 && p < stack_top)
        return;
    if (level >= 2 || (p >= &__data_start && p < &_end))
        point();
}

#define ACCESS(n)                                                \
    void __sanitizer_cov_load##n(void *p) { access_(p); }        \
    void __sanitizer_cov_store##n(void *p) { access_(p); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
