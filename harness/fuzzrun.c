// The fuzzer with codecs that only look at what they are given (ld --wrap): records every input.
//   fuzzrun <prefix>, jobs on stdin:  F <id> <sections> <limit>     fuzz(sections, true), at most limit inputs (0: all)
//                                     C <id> <sections> <limit>     the tool's --fuzz-iterative
// Events go to <prefix>.json, bytes to <prefix>.pack; prints "calls <n>".
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "tool_funcs.h"

bool fuzz(const size_t sectionCount, const bool iterative);
int tool_main(int argc, char **argv);

enum {
#define X(n) ID_##n,
  TOOL_FUNCS(X)
#undef X
  COUNT
};
static const char *names[] = {
#define X(n) #n,
  TOOL_FUNCS(X)
#undef X
};
enum { HEAD = 192, TAIL = 128 };
static FILE *ev, *pk;
static long at, limit, seen, calls;
static const char *id;
static int sections;
// the input under way
static const uint8_t *in;
static uint8_t *copy, *used, *firstUsed;
static size_t copyCap, n;
static int comp, dec, same, intact;
static uint64_t sum;

static uint64_t digest(const uint8_t *p, size_t k)
{
  uint64_t h = 1469598103934665603ULL ^ k, v;
  size_t i = 0;
  for (; i + 8 <= k; i += 8) { memcpy(&v, p + i, 8); h = (h ^ v) * 1099511628211ULL; h ^= h >> 29; }
  for (; i < k; i++) h = (h ^ p[i]) * 1099511628211ULL;
  return h;
}

static void list(const char *what, int wantDec)
{
  fprintf(ev, "\"%s\":[", what);
  for (int i = 0, c = 0; i < COUNT; i++)
    if (firstUsed[i] == (wantDec ? 2 : 1))
      fprintf(ev, "%s\"%s\"", c++ ? "," : "", names[i]);
  fprintf(ev, "]");
}

// events of an input are written once the next one begins or the run ends
static char line[256];
static int pending;
static void flush_input(void)
{
  if (!pending)
    return;
  pending = 0;
  if (seen == 1)
  {
    memcpy(firstUsed, used, COUNT);
    fprintf(ev, "{\"k\":\"B\",\"id\":\"%s\",\"sections\":%d,", id, sections);
    list("comps", 0);
    fprintf(ev, ",");
    list("decs", 1);
    fprintf(ev, "}\n");
  }
  if (memcmp(firstUsed, used, COUNT))
    same = 0;
  fprintf(ev, "%s\"comp\":%d,\"dec\":%d,\"same\":%d,\"intact\":%d}\n", line, comp, dec, same, intact);
}

static void finish(int ret)
{
  flush_input();
  fprintf(ev, "{\"k\":\"E\",\"id\":\"%s\",\"ret\":%d}\n", id, ret);
  fflush(ev);
  fflush(pk);
  printf("calls %ld\n", calls);
  fflush(stdout);
  _exit(0);
}

static uint32_t call(int f, int isDec, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize)
{
  calls++;
  if (!isDec)
  {
    if (!seen || used[f]) // this codec again: a new input
    {
      flush_input();
      if (limit && seen >= limit)
        finish(-1);
      seen++;
      in = pIn; n = inSize;
      comp = dec = 0; same = intact = 1;
      memset(used, 0, COUNT);
      sum = digest(in, n);
      const size_t h = n <= HEAD + TAIL ? n : HEAD, t = n - h ? TAIL : 0;
      fwrite(in, 1, h, pk);
      fwrite(in + n - t, 1, t, pk);
      snprintf(line, sizeof(line), "{\"k\":\"I\",\"id\":\"%s\",\"n\":%zu,\"at\":%ld,\"h\":%zu,\"t\":%zu,", id, n, at, h, t);
      at += (long)(h + t);
      pending = 1;
    }
    else if (n <= 4096 ? digest(pIn, inSize) != sum || inSize != n : pIn != in || inSize != n)
      intact = 0;
    used[f] = 1;
    comp++;
    return inSize + 64; // as large as the part that is scrambled afterwards
  }
  used[f] = 2;
  dec++;
  if (outSize != n || inSize != n + 64)
    intact = 0;
  memcpy(pOut, in, outSize);
  return outSize;
}

#define ISDEC(s) (strstr(s, "decompress") || strstr(s, "_decode"))
#define X(n) uint32_t __wrap_##n(const uint8_t *i, uint32_t s, uint8_t *o, uint32_t t) { static int d = -1; if (d < 0) d = ISDEC(#n) ? 1 : 0; return call(ID_##n, d, i, s, o, t); }
TOOL_FUNCS(X)

int main(int argc, char **argv)
{
  char path[1024], job[512], jid[64], kind[8];
  used = calloc(1, COUNT); firstUsed = calloc(1, COUNT);
  snprintf(path, sizeof(path), "%s.json", argv[1]); ev = fopen(path, "w");
  snprintf(path, sizeof(path), "%s.pack", argv[1]); pk = fopen(path, "wb");
  snprintf(path, sizeof(path), "%s", argv[1]); // the fuzzer leaves a file in the working directory
  char *slash = strrchr(path, '/');
  if (slash)
    *slash = 0;
  if (!ev || !pk || (slash && chdir(path)))
    return 1;
  while (fgets(job, sizeof(job), stdin))
  {
    long lim;
    if (sscanf(job, "%7s %63s %d %ld", kind, jid, &sections, &lim) != 4)
      continue;
    id = jid; limit = lim;
    if (kind[0] == 'F')
      finish(fuzz((size_t)sections, true) ? 1 : 0);
    char *a[] = { "tool", "none", "--fuzz-iterative", NULL };
    finish(tool_main(3, a) == 0 ? 1 : 0);
  }
  printf("calls 0\n");
  return 0;
}
