/* One integer decides everything: every random choice of the simulator is
   drawn from streams derived from a single seed by these functions. */
#ifndef PRNG_H
#define PRNG_H
#include <stdint.h>
#include <stddef.h>

typedef struct { uint64_t s; } rng_t;

static inline uint64_t mix64(uint64_t z)
{
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(rng_t *r) { return mix64(r->s += 0x9e3779b97f4a7c15ULL); }
static inline rng_t rng_make(uint64_t seed, uint64_t stream)
{
  rng_t r = { mix64(seed ^ mix64(stream * 0x9e3779b97f4a7c15ULL + 0x1234567)) };
  return r;
}
/* uniform in [0, n) */
static inline uint64_t below(rng_t *r, uint64_t n) { return n ? (uint64_t)(rnd(r) >> 11) % n : 0; }
/* uniform in [a, b] */
static inline int64_t range(rng_t *r, int64_t a, int64_t b) { return a + (int64_t)below(r, (uint64_t)(b - a + 1)); }
/* true with probability p/1000 */
static inline int chance(rng_t *r, unsigned permille) { return below(r, 1000) < permille; }
/* log-uniform in [1, 2^bits) */
static inline uint64_t logrnd(rng_t *r, unsigned bits)
{
  unsigned b = (unsigned)below(r, bits) + 1;
  uint64_t lo = 1ULL << (b - 1);
  return lo + below(r, lo);
}
static inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(a * 0x9e3779b97f4a7c15ULL + mix64(b + 0x632be59bd9b4e019ULL)); }
static inline uint64_t hash_bytes(uint64_t h, const void *p, size_t n)
{
  const unsigned char *c = (const unsigned char *)p;
  size_t i;
  for (i = 0; i < n; i++)
    h = (h ^ c[i]) * 0x100000001b3ULL;
  return mix64(h ^ n);
}
#endif
