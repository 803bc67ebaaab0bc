/* The little of Windows that entropy.c uses, as scripted stand-ins. */
#ifndef MC_WINDOWS_H
#define MC_WINDOWS_H
#include <stdint.h>
#include <string.h>
typedef int BOOL;
typedef uint32_t DWORD;
typedef union { int64_t QuadPart; } LARGE_INTEGER;
typedef uintptr_t HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000
typedef struct { int32_t acquire, gen, outstanding; int64_t clock; } mc_win_t;
mc_win_t mc_win; /* acquire: 0 works, 1 fails, 2 works without a handle */
static inline BOOL CryptAcquireContext(HCRYPTPROV *h, void *a, void *b, int c, unsigned d) {
  (void)a; (void)b; (void)c; (void)d;
  if (mc_win.acquire == 1) return 0;
  *h = mc_win.acquire == 2 ? 0 : 77;
  if (*h) mc_win.outstanding++;
  return 1;
}
static inline BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, unsigned char *p) {
  if (h != 77 || mc_win.gen == 1) return 0;
  memset(p, 0xC7, n);
  return 1;
}
static inline BOOL CryptReleaseContext(HCRYPTPROV h, int f) {
  (void)f;
  if (h == 77) mc_win.outstanding--;
  return 1;
}
static inline DWORD GetCurrentProcessId(void) { return 4242; }
static inline BOOL QueryPerformanceCounter(LARGE_INTEGER *v) {
  v->QuadPart = mc_win.clock += 11;
  return 1;
}
#endif
