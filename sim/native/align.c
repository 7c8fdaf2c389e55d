/* Preloaded into simulated processes: heap blocks always have the same alignment and the same initial contents, so
 * that vectorised floating point code (which handles unaligned heads separately) rounds alike in every run. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

extern void *__libc_memalign(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern size_t malloc_usable_size(void *);
extern void free(void *);

void *malloc(size_t n) {
  void *p = __libc_memalign(64, n ? n : 1);
  if (p && n <= 65536) {
    memset(p, 0xA5, n);
  }
  return p;
}

void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    return 0;
  }
  void *p = __libc_memalign(64, n ? n : 1);
  if (p) {
    memset(p, 0, n);
  }
  return p;
}

void *realloc(void *old, size_t n) {
  if (!old) {
    return malloc(n);
  }
  if (n > (1 << 20)) {
    return __libc_realloc(old, n);
  }
  size_t have = malloc_usable_size(old);
  void *p = malloc(n);
  if (p) {
    memcpy(p, old, have < n ? have : n);
    free(old);
  }
  return p;
}
