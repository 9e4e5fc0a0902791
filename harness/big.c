// Large inputs, described instead of recorded.   big OUTPREFIX 0 1 < jobs
//   Z <id> <codec> <n> <levels> N|R<hex> <head> <tail>   noise or a run of n bytes (head and tail bytes of noise around it)
//   Y <id> <codec> <n> <levels> <hex> <lit> <hex> <sym> <run>   a stream: bytes, lit bytes of noise, bytes; its content:
//                                                               the noise and run bytes of the symbol
// Sizes are recorded as [high 16 bits, low 16 bits].
#include "hrk.h"

static region_t rin, rcomp, rout;
static FILE *js;
static long calls;

static void pair(const char *k, uint32_t v) { fprintf(js, "\"%s\":[%u,%u],", k, v >> 16, v & 0xffff); }

static void what(char *f, const region_t *wr, const region_t *rd)
{
  uint8_t *a = (uint8_t *)guard_fault.addr;
  const char *rw = guard_fault.write ? "write" : "read";
  if (guard_fault.sig == SIGVTALRM) snprintf(f, 48, "hang");
  else if (guard_fault.sig != SIGSEGV && guard_fault.sig != SIGBUS) snprintf(f, 48, "signal %d", guard_fault.sig);
  else if (a >= wr->hi && a < wr->hi + (1 << 20)) snprintf(f, 48, "%s out after", rw);
  else if (a >= rd->hi && a < rd->hi + (1 << 20)) snprintf(f, 48, "%s in after", rw);
  else snprintf(f, 48, "wild %s", rw);
}

static size_t unhex(const char *h, uint8_t *to)
{
  size_t k = 0;
  for (; h[0] && h[1]; h += 2) { char t[3] = { h[0], h[1], 0 }; to[k++] = (uint8_t)strtoul(t, NULL, 16); }
  return k;
}

static void stream(const char *id)
{
  char *name = strtok(NULL, " ");
  size_t n = strtoull(strtok(NULL, " "), NULL, 10);
  char *lvs = strtok(NULL, " ");
  uint8_t pre[256], end[64], sym[16];
  size_t np = unhex(strtok(NULL, " "), pre);
  size_t lit = strtoull(strtok(NULL, " "), NULL, 10);
  size_t ne = unhex(strtok(NULL, " "), end);
  size_t sn = unhex(strtok(NULL, " "), sym);
  size_t run = strtoull(strtok(NULL, " "), NULL, 10);
  int ci = codec_by_name(name);
  if (ci < 0 || lit + run != n) exit(3);
  const codec_t_ *c = &codecs[ci];
  size_t m = np + lit + ne;
  region_ensure(&rin, n + 4096);
  region_ensure(&rcomp, m + 4096);
  region_ensure(&rout, n + 128 + 4096);
  uint8_t *in = rin.hi - n, *comp = rcomp.hi - 128 - m;
  uint64_t s = 4711;
  for (size_t i = 0; i < lit; i += 8)
  {
    uint64_t r = rng_next(&s);
    memcpy(in + i, &r, lit - i < 8 ? lit - i : 8);
  }
  for (size_t i = lit, k = 0; i < n; i++, k = k + 1 == sn ? 0 : k + 1)
    in[i] = sym[k];
  memcpy(comp, pre, np);
  memcpy(comp + np, in, lit);
  memcpy(comp + np + lit, end, ne);
  fprintf(js, "{\"k\":\"Y\",\"id\":\"%s\",\"c\":\"%s\",", id, name);
  pair("n", (uint32_t)n);
  fputs("\"z\":[", js);
  for (int lv = 0, first = 1; lv < LV_COUNT; lv++)
  {
    if (!level_available(lv) || !strchr(lvs, '0' + lv)) continue;
    set_level(lv);
    volatile uint32_t d = 0;
    char df[48] = "";
    int same = 0;
    uint8_t *out = rout.hi - n - 128;
    for (size_t i = 0; i < n; i += 4096) out[i] = (uint8_t)~in[i];
    out[n - 1] = (uint8_t)~in[n - 1];
    calls++;
    if (!GUARDED(200, d = c->dec(comp, (uint32_t)m, out, (uint32_t)n)))
    {
      what(df, &rout, &rcomp);
      d = 0;
    }
    else
      same = d == n && !memcmp(in, out, n);
    fprintf(js, "%s{\"lv\":%d,", first ? "" : ",", lv);
    first = 0;
    pair("d", d);
    fprintf(js, "\"df\":\"%s\",\"same\":%d}", df, same);
  }
  fputs("]}\n", js);
  fflush(js);
}

int main(int argc, char **argv)
{
  char path[512];
  snprintf(path, sizeof(path), "%s.json", argv[1]);
  js = fopen(path, "w");
  guard_init();
  levels_init();
  rin = region_make("in", 1 << 20);
  rcomp = region_make("comp", 1 << 20);
  rout = region_make("out", 1 << 20);
  static char line[4096];
  while (fgets(line, sizeof(line), stdin))
  {
    line[strcspn(line, "\n")] = 0;
    bool isStream = line[0] == 'Y';
    char *id = strtok(line + 1, " ");
    if (isStream) { stream(id); continue; }
    char *name = strtok(NULL, " ");
    size_t n = strtoull(strtok(NULL, " "), NULL, 10);
    char *lvs = strtok(NULL, " "), *kind = strtok(NULL, " ");
    size_t head = strtoull(strtok(NULL, " "), NULL, 10), tail = strtoull(strtok(NULL, " "), NULL, 10);
    int ci = codec_by_name(name);
    if (ci < 0) return 3;
    const codec_t_ *c = &codecs[ci];
    region_ensure(&rin, n + 4096);
    uint8_t *in = rin.hi - n;
    uint64_t s = strtoull(id, NULL, 10) * 77 + 5;
    bool noise = kind[0] == 'N';
    uint8_t sym[16];
    size_t sn = 0;
    for (const char *h = kind + 1; h[0] && h[1]; h += 2) { char t[3] = { h[0], h[1], 0 }; sym[sn++] = (uint8_t)strtoul(t, NULL, 16); }
    for (size_t i = 0; i < n; i += 8)
    {
      uint64_t r = rng_next(&s);
      memcpy(in + i, &r, n - i < 8 ? n - i : 8);
      if (!noise && i >= head) i = i > n - tail - 8 ? i : n - tail - 8; // only the ends
    }
    if (!noise)
      for (size_t i = head, k = 0; i < n - tail; i++, k = k + 1 == sn ? 0 : k + 1)
        in[i] = sym[k];
    uint32_t bd = c->bounds((uint32_t)n);
    fprintf(js, "{\"k\":\"Z\",\"id\":\"%s\",\"c\":\"%s\",", id, name);
    pair("n", (uint32_t)n);
    pair("bd", bd);
    fprintf(js, "\"run\":%d,\"z\":[", !noise);
    region_ensure(&rcomp, (size_t)bd + 4096);
    region_ensure(&rout, n + 128 + 4096);
    for (int lv = 0, first = 1; lv < LV_COUNT; lv++)
    {
      if (!level_available(lv) || !strchr(lvs, '0' + lv)) continue;
      set_level(lv);
      volatile uint32_t m = 0, d = 0;
      char f[48] = "", df[48] = "";
      int same = 0;
      uint8_t *comp = rcomp.hi - bd;
      calls++;
      if (!GUARDED(200, m = c->comp(in, (uint32_t)n, comp, bd)))
      {
        what(f, &rcomp, &rin);
        m = 0;
      }
      uint32_t h0 = 0, h1 = 0;
      if (m && m <= bd)
      {
        memmove(rcomp.hi - 128 - m, comp, m); // the stream directly in front of the bytes a decoder may read
        comp = rcomp.hi - 128 - m;
        memcpy(&h0, comp, m < 4 ? m : 4);
        memcpy(&h1, comp + 4, m < 8 ? 0 : 4);
        uint8_t *out = rout.hi - n - 128;
        calls++;
        if (!GUARDED(200, d = c->dec(comp, m, out, (uint32_t)n)))
        {
          what(df, &rout, &rcomp);
          d = 0;
        }
        else
          same = d == n && !memcmp(in, out, n);
      }
      fprintf(js, "%s{\"lv\":%d,", first ? "" : ",", lv);
      first = 0;
      pair("r", m);
      pair("h0", h0);
      pair("h1", h1);
      pair("d", d);
      fprintf(js, "\"f\":\"%s\",\"df\":\"%s\",\"same\":%d}", f, df, same);
    }
    fputs("]}\n", js);
    fflush(js);
  }
  fclose(js);
  snprintf(path, sizeof(path), "%s.pack", argv[1]);
  FILE *f = fopen(path, "wb");
  fputs("HRK!", f);
  fclose(f);
  fprintf(stderr, "calls %ld\n", calls);
  return 0;
}
