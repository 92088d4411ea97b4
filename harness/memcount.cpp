// counts the blocks of memory in use, exactly (glibc)
#include <cstddef>
#include <cerrno>
static long live = 0;
long liveBlocks() { return live; }
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static void *got(void *p) { if (p) __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); return p; }
void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n)
{
    void *q = got(__libc_memalign(a, n));
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    void *q = __libc_realloc(p, n);
    if (n == 0 && !q) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED);
    return q;
}
void free(void *p)
{
    if (p) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED);
    __libc_free(p);
}
}
