/* An allocator that accounts for the blocks of the library under test.
 *
 * Linked into the C harness, and preloaded into Python for its harness. A block belongs to the
 * library when the call that allocated it came from the library's code. Such a block is filled when
 * allocated, followed by a canary, poisoned when freed and kept in quarantine for a while, so that a
 * double free, an overrun, a write after the release, and (because the contents change) a read
 * after the release are all seen. */
#define _GNU_SOURCE
#include <errno.h>
#include <link.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);

typedef struct {
    void *raw;
    size_t size;
    uint64_t magic;
    uint64_t ours;
} Head;

#define LIVE 0x4c4956456c697665ull
#define DEAD 0x444541446465616dull
#define CANARY 0x5a
#define CANARY_SIZE 16
#define QUARANTINE 4096
#define POISON 0xdd
#define FILL 0xa7

static uintptr_t lo, hi;
static size_t limit;
static long live, total;
static Head *quarantine[QUARANTINE];
static unsigned quarantine_at;
static void (*on_fault)(const char *);

void mc_on_fault(void (*f)(const char *)) { on_fault = f; }
long mc_live(void) { return live; }
long mc_total(void) { return total; }
/* The library cannot allocate more than this at once; 0: no limit */
void mc_limit(size_t n) { limit = n; }

static void fault(const char *what) {
    if (on_fault)
        on_fault(what);
    if (write(2, "memory fault: ", 14) + write(2, what, strlen(what)) + write(2, "\n", 1) == 0)
        _exit(98);
    _exit(97);
}

static int each(struct dl_phdr_info *info, size_t size, void *name) {
    (void)size;
    if (!info->dlpi_name || !strstr(info->dlpi_name, (const char *)name))
        return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        const ElfW(Phdr) *p = &info->dlpi_phdr[i];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_X)) {
            lo = info->dlpi_addr + p->p_vaddr;
            hi = lo + p->p_memsz;
        }
    }
    return 1;
}

/* Starts accounting for the library whose file name contains `name`; 0 if there is none. */
int mc_track(const char *name) {
    lo = hi = 0;
    dl_iterate_phdr(each, (void *)name);
    return hi != 0;
}

static int from_library(void *ra) { return (uintptr_t)ra >= lo && (uintptr_t)ra < hi; }

static void *get(size_t align, size_t n, int ours) {
    if (align < 16)
        align = 16;
    if (n > SIZE_MAX / 2 || (ours && limit && n > limit)) {
        errno = ENOMEM;
        return NULL;
    }
    char *raw = __libc_malloc(n + align + sizeof(Head) + CANARY_SIZE);
    if (!raw)
        return NULL;
    char *p = (char *)(((uintptr_t)raw + sizeof(Head) + align - 1) & ~(uintptr_t)(align - 1));
    Head *h = (Head *)p - 1;
    h->raw = raw;
    h->size = n;
    h->magic = LIVE;
    h->ours = ours;
    if (ours) {
        __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&total, 1, __ATOMIC_RELAXED);
        memset(p, FILL, n);
    }
    memset(p + n, CANARY, CANARY_SIZE);
    return p;
}

static void check_canary(Head *h) {
    unsigned char *c = (unsigned char *)(h + 1) + h->size;
    for (int i = 0; i < CANARY_SIZE; i++)
        if (c[i] != CANARY)
            fault("a block was written past its end");
}

static void evict(Head *h) {
    unsigned char *p = (unsigned char *)(h + 1);
    for (size_t i = 0; i < h->size; i++)
        if (p[i] != POISON)
            fault("a block was written to after its release");
    check_canary(h);
    h->magic = 0;
    __libc_free(h->raw);
}

static void put(void *p) {
    if (!p)
        return;
    Head *h = (Head *)p - 1;
    if (h->magic == DEAD)
        fault("a block was released twice");
    if (h->magic != LIVE)
        fault("a pointer was released that is not the start of a block");
    if (!h->ours) {
        h->magic = 0;
        __libc_free(h->raw);
        return;
    }
    check_canary(h);
    __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
    memset(p, POISON, h->size);
    h->magic = DEAD;
    unsigned at = __atomic_fetch_add(&quarantine_at, 1, __ATOMIC_RELAXED) % QUARANTINE;
    Head *old = __atomic_exchange_n(&quarantine[at], h, __ATOMIC_ACQ_REL);
    if (old)
        evict(old);
}

/* Looks through the quarantine for blocks written to after their release. */
void mc_sweep(void) {
    for (unsigned i = 0; i < QUARANTINE; i++) {
        Head *h = quarantine[i];
        quarantine[i] = NULL;
        if (h)
            evict(h);
    }
}

/* The size of the block at p; (size_t)-1 if there is no live block there. */
size_t mc_size(const void *p) {
    if ((uintptr_t)p < 4096 || (uintptr_t)p % 8)
        return (size_t)-1;
    const Head *h = (const Head *)p - 1;
    return h->magic == LIVE ? h->size : (size_t)-1;
}

void *malloc(size_t n) { return get(16, n, from_library(__builtin_return_address(0))); }
void free(void *p) { put(p); }
void *calloc(size_t n, size_t m) {
    size_t s;
    if (__builtin_mul_overflow(n, m, &s)) {
        errno = ENOMEM;
        return NULL;
    }
    void *p = get(16, s, from_library(__builtin_return_address(0)));
    if (p)
        memset(p, 0, s);
    return p;
}
void *realloc(void *p, size_t n) {
    int ours = from_library(__builtin_return_address(0));
    void *q = get(16, n, ours);
    if (!q)
        return NULL;
    if (p) {
        Head *h = (Head *)p - 1;
        if (h->magic == DEAD)
            fault("a released block was resized");
        if (h->magic != LIVE)
            fault("a pointer was resized that is not the start of a block");
        memcpy(q, p, n < h->size ? n : h->size);
        put(p);
    }
    return q;
}
int posix_memalign(void **out, size_t align, size_t n) {
    void *p = get(align, n, from_library(__builtin_return_address(0)));
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
void *aligned_alloc(size_t align, size_t n) { return get(align, n, from_library(__builtin_return_address(0))); }
void *memalign(size_t align, size_t n) { return get(align, n, from_library(__builtin_return_address(0))); }
size_t malloc_usable_size(void *p) { return p ? ((Head *)p - 1)->size : 0; }

/* Hash seeds of the library, from VERIF_SEED */
static uint64_t seed_state = 1;
void mc_seed(uint64_t s) { seed_state = s * 0x9e3779b97f4a7c15ull + 1; }
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        seed_state = seed_state * 6364136223846793005ull + 1442695040888963407ull;
        p[i] = seed_state >> 56;
    }
    return n;
}
