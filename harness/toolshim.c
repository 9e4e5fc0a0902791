// Between the command line tool and the library (ld --wrap): records which codec functions the tool called, with what
// result and at which instruction-set level, and makes a chosen one fail in a chosen way.
//   HRK_LOG=<file>                        shared record (struct rec)
//   HRK_FAULT=<function>:<kind>:<a>:<b>:<skip>
//     kinds: zero (returns 0), none (writes nothing), short (writes only the first a bytes), size (returns a more),
//            flip (byte a from the start, or from the end if negative, gets ^= b)
//     from the (skip+1)th call of the function on
//   HRK_STOP=<n>                          ends the process with status 77 after n calls, or n calls after the first fault
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include "simd_platform.h"
#include "tool_funcs.h"

enum { MAXF = 512 };
struct rec
{
  uint32_t calls, fired, after, level; // level: bits as below, after the last call
  struct { uint32_t n, lastIn, lastRet, order; } f[MAXF];
};
static struct rec *r;
static struct rec none;
static const char *names[] = {
#define X(n) #n,
  TOOL_FUNCS(X)
#undef X
};
static int depth, target = -1, kind;
static long a, b, skip, stop;

__attribute__((constructor)) static void start(void)
{
  const char *p = getenv("HRK_LOG"), *f = getenv("HRK_FAULT"), *s = getenv("HRK_STOP");
  r = &none;
  if (p)
  {
    int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof(struct rec)) == 0)
    {
      void *m = mmap(NULL, sizeof(struct rec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED)
        r = m;
    }
  }
  if (s)
    stop = atol(s);
  if (f)
  {
    size_t l = strcspn(f, ":");
    for (size_t i = 0; i < sizeof(names) / sizeof(*names); i++)
      if (strlen(names[i]) == l && memcmp(names[i], f, l) == 0)
        target = (int)i;
    if (target < 0)
      _exit(78);
    f += l + 1;
    kind = f[0] == 'z' ? 1 : f[0] == 'n' ? 2 : f[0] == 's' && f[1] == 'h' ? 3 : f[0] == 's' ? 4 : 5;
    f = strchr(f, ':') + 1; a = strtol(f, (char **)&f, 10);
    f++; b = strtol(f, (char **)&f, 10);
    f++; skip = strtol(f, (char **)&f, 10);
  }
}

typedef uint32_t fn(const uint8_t *, uint32_t, uint8_t *, uint32_t);

static uint32_t call(int id, fn *real, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize)
{
  if (depth)
    return real(pIn, inSize, pOut, outSize);
  if (stop && (target < 0 ? r->calls : r->fired ? r->after : 0) >= (uint32_t)stop)
    _exit(77);
  depth = 1;
  uint32_t ret;
  const int fault = id == target && (long)r->f[id].n >= skip;
  if (fault && (kind == 2 || kind == 3))
  {
    uint8_t *t = malloc((size_t)outSize + 4096);
    ret = real(pIn, inSize, t, outSize);
    size_t k = kind == 2 ? 0 : a < 0 ? (ret >= (uint32_t)-a ? ret + a : 0) : (uint32_t)a < ret ? (uint32_t)a : ret;
    memcpy(pOut, t, k);
    free(t);
  }
  else
  {
    ret = real(pIn, inSize, pOut, outSize);
    if (fault && kind == 1) ret = 0;
    else if (fault && kind == 4) ret += (uint32_t)a;
    else if (fault && kind == 5 && ret) pOut[a < 0 ? ((long)ret + a > 0 ? ret + a : 0) : (uint32_t)a % ret] ^= (uint8_t)b;
  }
  r->calls++;
  if (r->fired) r->after++;
  if (fault) r->fired = 1;
  r->f[id].n++;
  r->f[id].order = r->calls;
  r->f[id].lastIn = inSize;
  r->f[id].lastRet = ret;
  r->level = sse2Supported | sse3Supported << 1 | ssse3Supported << 2 | sse41Supported << 3 | sse42Supported << 4 | avxSupported << 5 | avx2Supported << 6 | avx512FSupported << 7;
  depth = 0;
  return ret;
}

enum {
#define X(n) ID_##n,
  TOOL_FUNCS(X)
#undef X
};
#define X(n) fn __real_##n; uint32_t __wrap_##n(const uint8_t *i, uint32_t s, uint8_t *o, uint32_t t) { return call(ID_##n, __real_##n, i, s, o, t); }
TOOL_FUNCS(X)
