// For the analysis: the tool's aligned buffers (ld --wrap) end where memory ends, up to their alignment; the rest is zeros.
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
enum { MAX = 64 };
static struct { uint8_t *p; void *m; size_t n; } have[MAX];

void __real_free(void *p);
void *__wrap_aligned_alloc(size_t a, size_t n)
{
  const size_t page = 4096, want = (n + a - 1) / a * a, len = (want + page - 1) / page * page + page;
  for (int i = 0; i < MAX; i++)
    if (!have[i].p)
    {
      uint8_t *m = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (m == MAP_FAILED || mprotect(m + len - page, page, PROT_NONE))
        return NULL;
      have[i].m = m;
      have[i].n = len;
      return have[i].p = m + len - page - want;
    }
  return NULL;
}
void __wrap_free(void *p)
{
  for (int i = 0; p && i < MAX; i++)
    if (have[i].p == p)
    {
      munmap(have[i].m, have[i].n);
      have[i].p = NULL;
      return;
    }
  __real_free(p);
}
