/* Preloaded: counts the bytes of live heap blocks of at least a page, and
   their peak. Smaller blocks (Python objects) are not of interest. */
#include <errno.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stddef.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t),
    *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static _Atomic long live_bytes, peak_bytes, blocks;

static void *got(void *p) {
  if (p) {
    size_t const n = malloc_usable_size(p);
    if (n >= 4096) {
      long const now = atomic_fetch_add(&live_bytes, (long)n) + (long)n;
      long old = atomic_load(&peak_bytes);
      atomic_fetch_add(&blocks, 1);
      while (now > old && !atomic_compare_exchange_weak(&peak_bytes, &old, now)) {
      }
    }
  }
  return p;
}

static void lost(void *p) {
  if (p) {
    size_t const n = malloc_usable_size(p);
    if (n >= 4096) atomic_fetch_sub(&live_bytes, (long)n);
  }
}

void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void free(void *p) {
  lost(p);
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  void *q;
  lost(p);
  q = __libc_realloc(p, n);
  if (!q && n) {
    got(p);
    return q;
  }
  return got(q);
}
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **out, size_t a, size_t n) {
  void *p = got(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

long dwv_live(void) { return atomic_load(&live_bytes); }
long dwv_peak(void) { return atomic_load(&peak_bytes); }
long dwv_blocks(void) { return atomic_load(&blocks); }
void dwv_reset(void) { atomic_store(&peak_bytes, atomic_load(&live_bytes)); }
