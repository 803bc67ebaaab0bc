/* Included before every C file of the entropy extension in the "entropy" variant:
 * the system calls it makes become stand-ins that follow a script set from Python
 * through the exported object mc_os. */
#ifndef MC_ENTROPY_SHIM_H
#define MC_ENTROPY_SHIM_H
#if !defined(_GNU_SOURCE)
#define _GNU_SOURCE 1
#endif
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef struct {
  int32_t open_err[8];  /* errno of the i-th open, 0 = works */
  int64_t read_res[16]; /* i-th read: -errno, or at most this many bytes; -1000 = all */
  int32_t close_err[8];
  int32_t malloc_fail;  /* fail this many allocations of entropy.c */
  int32_t fd;           /* first descriptor to give out */
  int32_t nopen, nread, nclose, nmalloc;
  int32_t outstanding;  /* opened and not yet closed */
  int32_t badfd;        /* reads or closes of something not open */
  int64_t delivered;    /* bytes written into buffers */
  int64_t clock;        /* time, advances on each question */
  int32_t ntime;
} mc_os_t;

__attribute__((weak, visibility("default"))) mc_os_t mc_os;

static inline unsigned char mc_byte(uint64_t i) {
  uint64_t z = (i / 8 + 1) * 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  z ^= z >> 31;
  return (unsigned char)(z >> (8 * (i % 8))) | 1; /* never zero */
}
static inline int mc_open(void) {
  int e = mc_os.nopen < 8 ? mc_os.open_err[mc_os.nopen] : 0;
  mc_os.nopen++;
  if (e) {
    errno = e;
    return -1;
  }
  mc_os.outstanding++;
  return mc_os.fd;
}
static inline ssize_t mc_fill(void *p, size_t n, int check, int fd) {
  int64_t r = mc_os.nread < 16 ? mc_os.read_res[mc_os.nread] : -1000;
  size_t i, k = n;
  mc_os.nread++;
  if (check && (fd != mc_os.fd || mc_os.outstanding <= 0)) {
    mc_os.badfd++;
    errno = EBADF;
    return -1;
  }
  if (r < 0 && r != -1000) {
    errno = (int)-r;
    return -1;
  }
  if (r >= 0 && (size_t)r < k)
    k = (size_t)r;
  for (i = 0; i < k; i++)
    ((unsigned char *)p)[i] = mc_byte((uint64_t)mc_os.delivered++);
  return (ssize_t)k;
}
static inline int mc_close(int fd) {
  int e = mc_os.nclose < 8 ? mc_os.close_err[mc_os.nclose] : 0;
  mc_os.nclose++;
  if (fd != mc_os.fd || mc_os.outstanding <= 0) {
    mc_os.badfd++;
    errno = EBADF;
    return -1;
  }
  mc_os.outstanding--;
  if (e) {
    errno = e;
    return -1;
  }
  return 0;
}
static inline int mc_getentropy(void *p, size_t n) {
  return mc_fill(p, n, 0, 0) == (ssize_t)n ? 0 : -1;
}
static inline int mc_gettimeofday(struct timeval *tv) {
  mc_os.ntime++;
  mc_os.clock += 7;
  tv->tv_sec = 1600000000 + mc_os.clock / 1000000;
  tv->tv_usec = mc_os.clock % 1000000;
  return 0;
}
static inline clock_t mc_clock(void) {
  mc_os.ntime++;
  return (clock_t)(mc_os.clock / 3);
}
static inline void *mc_malloc(size_t n) {
  mc_os.nmalloc++;
  if (mc_os.malloc_fail > 0) {
    mc_os.malloc_fail--;
    return NULL;
  }
  return malloc(n);
}
#define malloc(n) mc_malloc(n)
#define open(...) mc_open()
#define openat(...) mc_open()
#define read(fd, p, n) mc_fill((p), (n), 1, (fd))
#define close(fd) mc_close(fd)
#define getrandom(p, n, f) mc_fill((p), (n), 0, 0)
#define getentropy(p, n) mc_getentropy((p), (n))
#define gettimeofday(tv, tz) mc_gettimeofday(tv)
#define clock() mc_clock()
#endif
