/* Included before every C file of the rdrand extension in the "rdrand" variant.
 * The RDRAND instruction becomes a stand-in that follows a script set from Python
 * through the exported object mc_rdrand. */
#ifndef MC_RDRAND_SHIM_H
#define MC_RDRAND_SHIM_H
#if !defined(_GNU_SOURCE)
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <immintrin.h>
#undef __RDRND__
#define __RDRND__ 1

typedef struct {
  int64_t nfail;       /* pairs in use */
  int64_t at[8];       /* before delivering word at[i] ... */
  int64_t count[8];    /* ... fail count[i] more times (-1: for ever) */
  int64_t delivered;   /* words delivered */
  int64_t attempts;    /* executions of the instruction */
  int64_t run;         /* current run of failures */
  int64_t nlog;        /* failures seen before each success or at the end */
  int32_t log[65536];
  uint64_t salt;
} mc_rdrand_t;

__attribute__((weak, visibility("default"))) mc_rdrand_t mc_rdrand;

static inline uint64_t mc_rdrand_word(uint64_t i, uint64_t salt) {
  uint64_t z = (i + 1 + salt) * 0x9E3779B97F4A7C55ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

static inline int mc_rdrand64_step(unsigned long long *p) {
  int i;
  mc_rdrand.attempts++;
  for (i = 0; i < mc_rdrand.nfail; i++) {
    if (mc_rdrand.at[i] == mc_rdrand.delivered && mc_rdrand.count[i] != 0) {
      if (mc_rdrand.count[i] > 0)
        mc_rdrand.count[i]--;
      if (mc_rdrand.nlog < 65536)
        mc_rdrand.log[mc_rdrand.nlog++] = 0;
      *p = 0; /* as the instruction does */
      return 0;
    }
  }
  if (mc_rdrand.nlog < 65536)
    mc_rdrand.log[mc_rdrand.nlog++] = 1;
  *p = mc_rdrand_word((uint64_t)mc_rdrand.delivered++, mc_rdrand.salt);
  return 1;
}
#define _rdrand64_step(p) mc_rdrand64_step((unsigned long long *)(p))
#endif
