// Makes single calls with arguments the specification chose (missing buffers, wrong sizes, patched headers) and records
// what came back.   calls OUTPREFIX 0 1 < jobs
//   C <id> <codec> <in> <out> <n> <o>                   compress n bytes into a buffer stated to hold o
//   D <id> <codec> <in> <out> <i> <o> <patch> <plan>    decompress: the stream of the planned input, patched, stated to be i bytes
//                                                       long, into a buffer stated to hold o
//   S <id> <sections> <n> <o>                           rle8m_compress with that many sections
//   B <id> <function> <present> <n> <o> <plan>          building blocks; present: one 0/1 per pointer argument
//   in/out: 1 a buffer of exactly the stated size, 0 no buffer.  Sizes: a number, or b / m / n (bound, stream length, input
//   length) with an offset, e.g. b-1.  patch: off:hex[,off:hex...] or -.
// Sizes are recorded as [high 16 bits, low 16 bits].
#include "hrk.h"

static region_t rin, rout;
static uint8_t *hugeIn, *hugeOut;
static pack_t pk;
static FILE *js;
static long calls;
static int hangs;
typedef struct { uint32_t r; char f[48]; unsigned lvs; } one_t;
static one_t rs[64];
static int rsN;

static void put(uint32_t r, const char *f, int lv)
{
  int i;
  for (i = 0; i < rsN; i++)
    if (rs[i].r == r && !strcmp(rs[i].f, f))
      break;
  if (i == rsN)
  {
    if (rsN == 64) return;
    rs[rsN].r = r;
    snprintf(rs[rsN].f, 48, "%s", f);
    rs[rsN++].lvs = 0;
  }
  rs[i].lvs |= 1u << lv;
}

static void jpair(const char *k, uint32_t v) { fprintf(js, "\"%s\":[%u,%u],", k, v >> 16, v & 0xffff); }
static void jrs(void)
{
  fputs("\"rs\":[", js);
  for (int i = 0; i < rsN; i++)
  {
    fprintf(js, "%s{\"r\":[%u,%u],\"f\":\"%s\",\"lv\":[", i ? "," : "", rs[i].r >> 16, rs[i].r & 0xffff, rs[i].f);
    for (int b = 0, f = 0; b < LV_COUNT; b++)
      if (rs[i].lvs >> b & 1)
        fprintf(js, "%s%d", f++ ? "," : "", b);
    fputs("]}", js);
  }
  fputs("]}\n", js);
  fflush(js);
}

static uint32_t size_of(const char *t, uint32_t b)
{
  if (*t == 'b' || *t == 'm' || *t == 'n')
    return b + (uint32_t)strtol(t + 1, NULL, 10);
  return (uint32_t)strtoul(t, NULL, 10);
}

static const char *fault_text(void)
{
  static char t[48];
  if (guard_fault.sig == SIGSEGV || guard_fault.sig == SIGBUS)
    snprintf(t, 48, "%s outside the buffers", guard_fault.write ? "write" : "read");
  else if (guard_fault.sig == SIGVTALRM) { snprintf(t, 48, "hang"); hangs++; }
  else snprintf(t, 48, "signal %d", guard_fault.sig);
  return t;
}

enum { BIG = 1 << 20 };
static bool is_huge(uint32_t v) { return v > BIG; }

// memory for `n` stated bytes: against the guard page behind (side 0) or before (side 1)
static uint8_t *room(region_t *r, uint8_t *huge, uint32_t n, int side)
{
  if (is_huge(n))
    return huge;
  region_ensure(r, BIG + 8192);
  return side ? r->lo : r->hi - n;
}
static void canaries(const region_t *r, uint8_t *p, uint32_t n, bool check, const char **f)
{
  if (is_huge(n))
    return;
  for (size_t i = 0; i < 256; i++)
  {
    if (p + n + i < r->hi) { if (!check) p[n + i] = 0xC7; else if (p[n + i] != 0xC7) *f = "write behind the output"; }
    if (p - 1 - i >= r->lo) { if (!check) p[-1 - (intptr_t)i] = 0x7C; else if (p[-1 - (intptr_t)i] != 0x7C) *f = "write before the output"; }
  }
}

static void call(codec_fn fn, const uint8_t *src, size_t srcN, bool hasIn, uint32_t n, bool hasOut, uint32_t o, int side, int lv)
{
  uint8_t *in = hasIn ? room(&rin, hugeIn, n, side) : NULL;
  uint8_t *out = hasOut ? room(&rout, hugeOut, o, side) : NULL;
  if (in && !is_huge(n))
    for (uint32_t i = 0; i < n; i++)
      in[i] = i < srcN ? src[i] : (uint8_t)(i * 37);
  const char *f = "";
  if (out) canaries(&rout, out, o, false, &f);
  volatile uint32_t r = 0;
  calls++;
  if (!GUARDED(8, r = fn(in, n, out, o)))
  {
    put(0, fault_text(), lv);
    return;
  }
  if (out) canaries(&rout, out, o, true, &f);
  if (in && !is_huge(n))
    for (uint32_t i = 0; i < n; i++)
      if (in[i] != (i < srcN ? src[i] : (uint8_t)(i * 37))) { f = "input modified"; break; }
  put(r, f, lv);
}

static uint32_t secs;
static uint32_t sections(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(secs, i, n, o, m); }

#define EACH_LEVEL for (int lv = 0; lv < LV_COUNT; lv++) if (level_available(lv) && (set_level(lv), true)) for (int side = 0; side < 2; side++)

static size_t patch(uint8_t *s, size_t n, const char *p)
{
  while (*p && *p != '-')
  {
    size_t off = strtoul(p, (char **)&p, 10);
    p++;
    while (*p && *p != ',')
    {
      unsigned v;
      sscanf(p, "%2x", &v);
      if (off < n) s[off] = (uint8_t)v;
      off++;
      p += 2;
    }
    if (*p == ',') p++;
  }
  return n;
}

// ---- building blocks -----------------------------------------------------------------------------
// need: the smallest size for which the call is usable, found with ample room
static bool block(const char *fn, const char *pres, const char *nt, const char *ot, const uint8_t *input, size_t inputN, uint32_t *n, uint32_t *o, uint32_t *need)
{
  static rle8_low_entropy_compress_info_t ci, ci2;
  static rle8_low_entropy_decompress_info_t di;
  static uint8_t big[1 << 20], tab[512];
  bool p0 = pres[0] == '1', p1 = pres[1] == '1', p2 = strlen(pres) > 2 && pres[2] == '1', p3 = strlen(pres) > 3 && pres[3] == '1';
  bool shrt = !strncmp(fn, "short_", 6);
  if (shrt) fn += 6;
  volatile uint32_t ok = 0;
  set_level(LV_NONE);
  // what the steps before this one give
  volatile uint32_t tabN = 0, codeN = 0;
  if (!GUARDED(8, ok = rle8_low_entropy_get_compress_info(input, (uint32_t)inputN, &ci))) return false;
  if (!GUARDED(8, tabN = rle8_low_entropy_write_compress_info(&ci, tab, sizeof(tab)))) return false;
  if (!GUARDED(8, codeN = (shrt ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(input, (uint32_t)inputN, &ci, big, sizeof(big)))) return false;
  if (!GUARDED(8, ok = rle8_low_entropy_read_decompress_info(tab, tabN, &di))) return false;
  if (!tabN || !codeN || !ok) return false;
  *need = 0;
  *n = size_of(nt, (uint32_t)inputN);
  *o = 0;
  EACH_LEVEL
  {
    volatile uint32_t r = 0;
    const char *f = "";
    bool ran;
    if (!strcmp(fn, "get_compress_info") || !strcmp(fn, "get_compress_info_only_max_frequency"))
    {
      uint8_t *in = p0 ? room(&rin, hugeIn, *n, side) : NULL;
      if (in) memcpy(in, input, *n < inputN ? *n : inputN);
      bool all = fn[17] == 0;
      ran = GUARDED(8, r = (all ? rle8_low_entropy_get_compress_info : rle8_low_entropy_get_compress_info_only_max_frequency)(in, *n, p1 ? &ci2 : NULL));
    }
    else if (!strcmp(fn, "write_compress_info"))
    {
      *need = tabN;
      *o = size_of(ot, tabN);
      uint8_t *out = p1 ? room(&rout, hugeOut, *o, side) : NULL;
      if (out) canaries(&rout, out, *o, false, &f);
      ran = GUARDED(8, r = rle8_low_entropy_write_compress_info(p0 ? &ci : NULL, out, *o));
      if (ran && out) canaries(&rout, out, *o, true, &f);
    }
    else if (!strcmp(fn, "compress_with_info"))
    {
      *need = codeN;
      *o = size_of(ot, codeN);
      uint8_t *in = p0 ? room(&rin, hugeIn, *n, side) : NULL;
      if (in) memcpy(in, input, *n < inputN ? *n : inputN);
      uint8_t *out = p2 ? room(&rout, hugeOut, *o, side) : NULL;
      if (out) canaries(&rout, out, *o, false, &f);
      ran = GUARDED(8, r = (shrt ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(in, *n, p1 ? &ci : NULL, out, *o));
      if (ran && out) canaries(&rout, out, *o, true, &f);
    }
    else if (!strcmp(fn, "read_decompress_info"))
    {
      *need = tabN;
      *n = size_of(nt, tabN);
      uint8_t *in = p0 ? room(&rin, hugeIn, *n, side) : NULL;
      if (in) memcpy(in, tab, *n < tabN ? *n : tabN);
      rle8_low_entropy_decompress_info_t d2;
      ran = GUARDED(8, r = rle8_low_entropy_read_decompress_info(in, *n, p1 ? &d2 : NULL));
    }
    else if (!strcmp(fn, "decompress_with_info"))
    {
      // with the documented room behind both buffers: only missing arguments are unusable here
      *o = size_of(ot, (uint32_t)inputN);
      uint8_t *in = room(&rin, hugeIn, codeN + rle_decompress_additional_size(), 0);
      memcpy(in, big, codeN);
      uint8_t *out = p3 ? room(&rout, hugeOut, *o + rle_decompress_additional_size(), 0) : NULL;
      ran = GUARDED(8, r = (shrt ? rle8_low_entropy_short_decompress_with_info : rle8_low_entropy_decompress_with_info)(p0 ? in : NULL, p1 ? in + codeN : NULL, p2 ? &di : NULL, out, *o));
    }
    else if (!strcmp(fn, "decompressed_size"))
    {
      *need = 8;
      uint8_t *in = p0 ? room(&rin, hugeIn, *n, side) : NULL;
      if (in) for (uint32_t i = 0; i < *n; i++) in[i] = (uint8_t)(i == 0 ? *n : i == 4 ? 1 : 0);
      ran = GUARDED(8, r = rle8_low_entropy_decompressed_size(in, *n));
    }
    else
    {
      fprintf(stderr, "unknown function %s\n", fn);
      exit(3);
    }
    calls++;
    put(ran ? r : 0, ran ? f : fault_text(), lv);
  }
  return true;
}

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
  char path[512];
  snprintf(path, sizeof(path), "%s.json", argv[1]);
  js = fopen(path, "w");
  guard_init();
  levels_init();
  rin = region_make("in", BIG + 8192);
  rout = region_make("out", BIG + 8192);
  size_t huge = ((size_t)1 << 32) + (1 << 20);
  hugeIn = mmap(NULL, huge, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hugeOut = mmap(NULL, huge, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bool noHuge = hugeIn == MAP_FAILED || hugeOut == MAP_FAILED;
  pack_add(&pk, (const uint8_t *)"HRK!", 4);
  static char line[1 << 16];
  long skipped = 0;
  while (fgets(line, sizeof(line), stdin))
  {
    if (hangs >= 3)
      break;
    line[strcspn(line, "\n")] = 0;
    char kind = line[0];
    char *id = strtok(line + 1, " "), *name = strtok(NULL, " ");
    rsN = 0;
    if (kind == 'B')
    {
      char *pres = strtok(NULL, " "), *nt = strtok(NULL, " "), *ot = strtok(NULL, " "), *plan = strtok(NULL, "");
      size_t len;
      uint8_t *input = plan_build(plan ? plan : "", &len);
      uint32_t n, o, need;
      if (block(name, pres, nt, ot, input, len, &n, &o, &need))
      {
        fprintf(js, "{\"k\":\"B\",\"id\":\"%s\",\"c\":\"%s\",\"p\":%d,", id, name, strchr(pres, '0') == NULL);
        jpair("n", n); jpair("o", o); jpair("need", need);
        jrs();
      }
      else
        skipped++;
      free(input);
      continue;
    }
    if (kind == 'S')
    {
      secs = (uint32_t)strtoul(name, NULL, 10);
      uint32_t n = (uint32_t)strtoul(strtok(NULL, " "), NULL, 10);
      volatile uint32_t bd = 0;
      if (!GUARDED(8, bd = rle8m_compress_bounds(secs, n))) bd = 0;
      uint32_t o = size_of(strtok(NULL, " "), bd);
      EACH_LEVEL
        call(sections, NULL, 0, true, n, true, o, side, lv);
      fprintf(js, "{\"k\":\"S\",\"id\":\"%s\",\"c\":\"rle8m_compress\",", id);
      jpair("secs", secs); jpair("n", n); jpair("o", o); jpair("bd", bd);
      jrs();
      continue;
    }
    bool hasIn = *strtok(NULL, " ") == '1', hasOut = *strtok(NULL, " ") == '1';
    int ci = codec_by_name(name);
    if (ci < 0) { fprintf(stderr, "unknown codec %s\n", name); return 3; }
    const codec_t_ *c = &codecs[ci];
    if (kind == 'C')
    {
      uint32_t n = (uint32_t)strtoul(strtok(NULL, " "), NULL, 10);
      volatile uint32_t bd = 0;
      char *ot = strtok(NULL, " ");
      if (!GUARDED(8, bd = c->bounds(n))) bd = 0;
      uint32_t o = *ot == 'n' ? size_of(ot, n) : size_of(ot, bd);
      if (noHuge && (is_huge(n) || is_huge(o))) { skipped++; continue; }
      if (is_huge(n)) // one level of each kind is enough where a refusal must come before any work
      {
        int lvs[] = { LV_AVX512F, LV_AVX2, LV_SSE2, LV_NONE };
        for (int k = 0; k < 4; k++)
          if (level_available(lvs[k]))
          {
            set_level(lvs[k]);
            call(c->comp, NULL, 0, hasIn, n, hasOut, o, 0, lvs[k]);
          }
      }
      else
        EACH_LEVEL
          call(c->comp, NULL, 0, hasIn, n, hasOut, o, side, lv);
      fprintf(js, "{\"k\":\"C\",\"id\":\"%s\",\"c\":\"%s\",\"in\":%d,\"out\":%d,", id, name, hasIn, hasOut);
      jpair("n", n); jpair("o", o); jpair("bd", bd);
      jrs();
    }
    else
    {
      char *it = strtok(NULL, " "), *ot = strtok(NULL, " "), *pt = strtok(NULL, " "), *plan = strtok(NULL, "");
      size_t len;
      uint8_t *input = plan_build(plan ? plan : "", &len);
      uint32_t bd = c->bounds((uint32_t)len);
      uint8_t *s = malloc((size_t)bd + 64);
      volatile uint32_t m = 0;
      set_level(LV_SSE2);
      if (!GUARDED(8, m = c->comp(input, (uint32_t)len, s, bd)) || m == 0 || m > bd) { skipped++; free(s); free(input); continue; }
      patch(s, m, pt);
      uint32_t i = size_of(it, m), o = size_of(ot, (uint32_t)len);
      EACH_LEVEL
        call(c->dec, s, m, hasIn, i, hasOut, o, side, lv);
      // the bytes as the call saw them
      size_t off = pack_add(&pk, s, m < i ? m : i);
      for (uint32_t k = m; k < i; k++) { uint8_t v = (uint8_t)(k * 37); pack_add(&pk, &v, 1); }
      pack_add(&pk, (const uint8_t *)"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16);
      fprintf(js, "{\"k\":\"D\",\"id\":\"%s\",\"c\":\"%s\",\"in\":%d,\"out\":%d,\"s\":%zu,", id, name, hasIn, hasOut, off);
      jpair("i", i); jpair("o", o);
      jrs();
      free(s);
      free(input);
    }
  }
  fclose(js);
  snprintf(path, sizeof(path), "%s.pack", argv[1]);
  FILE *f = fopen(path, "wb");
  fwrite(pk.p, 1, pk.n, f);
  fclose(f);
  fprintf(stderr, "skipped %ld calls %ld\n", skipped, calls);
  return 0;
}
