#include "hrk.h"

const char *levelName[LV_COUNT] = { "avx512f", "avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "none" };

static int nib(char x) { return x <= '9' ? x - '0' : x - 'a' + 10; }

int codec_by_name(const char *n)
{
  size_t l = strcspn(n, ":");
  const char *p = n[l] ? n + l + 1 : NULL;
  const char *q = p ? strchr(p, ':') : NULL;
  if (p && !q)
    param_sections = (uint32_t)strtoul(p, NULL, 10);
  else if (p)
  {
    memset(&param_table, 0, sizeof(param_table));
    for (int v = 0; v < 256; v++)
      param_table.rle[v] = (nib(p[v / 8 * 2]) * 16 + nib(p[v / 8 * 2 + 1])) >> v % 8 & 1;
    size_t k = 0;
    bool used[256] = { false };
    for (q++; q[0] && q[1]; q += 2, k++)
      used[param_table.symbolsByProb[k] = (uint8_t)(nib(q[0]) * 16 + nib(q[1]))] = true;
    param_table.symbolCount = (uint8_t)k; // all 256 are listed: 0
    for (int v = 0; v < 256; v++) // the others follow in ascending order
      if (!used[v])
        param_table.symbolsByProb[k++] = (uint8_t)v;
  }
  for (int i = 0; i < codecN; i++)
    if (strlen(codecs[i].name) == l && !strncmp(codecs[i].name, n, l))
      return i;
  return -1;
}

// ---------------------------------------------------------------------------------------------
static bool have[LV_COUNT];

void levels_init(void)
{
  // what the real CPU and OS offer, asked of the compiler runtime rather than of the library under test
  __builtin_cpu_init();
  have[LV_AVX512F] = __builtin_cpu_supports("avx512f");
  have[LV_AVX2] = __builtin_cpu_supports("avx2");
  have[LV_AVX] = __builtin_cpu_supports("avx");
  have[LV_SSE42] = __builtin_cpu_supports("sse4.2");
  have[LV_SSE41] = __builtin_cpu_supports("sse4.1");
  have[LV_SSSE3] = __builtin_cpu_supports("ssse3");
  have[LV_SSE3] = __builtin_cpu_supports("sse3");
  have[LV_SSE2] = true;
  have[LV_NONE] = true;
  for (int i = 1; i < LV_COUNT; i++) // a level stands for "everything up to here"
    (void)i;
  _DetectCPUFeatures();
}

bool level_available(int lv)
{
  for (int i = lv; i < LV_COUNT; i++)
    if (!have[i])
      return false;
  return true;
}

void set_level(int lv)
{
  _CpuFeaturesDetected = true;
  sseSupported = true;
  avx512FSupported = lv <= LV_AVX512F;
  avx512PFSupported = avx512ERSupported = avx512CDSupported = avx512BWSupported = avx512DQSupported = false;
  avx512VLSupported = avx512IFMASupported = avx512VBMISupported = avx512VNNISupported = avx512VBMI2Supported = false;
  avx512POPCNTDQSupported = avx512BITALGSupported = avx5124VNNIWSupported = avx5124FMAPSSupported = false;
  avx2Supported = lv <= LV_AVX2;
  fma3Supported = false;
  aesNiSupported = false;
  avxSupported = lv <= LV_AVX;
  sse42Supported = lv <= LV_SSE42;
  sse41Supported = lv <= LV_SSE41;
  ssse3Supported = lv <= LV_SSSE3;
  sse3Supported = lv <= LV_SSE3;
  sse2Supported = lv <= LV_SSE2;
}

// ---------------------------------------------------------------------------------------------
#define GUARD (1u << 20)

region_t region_make(const char *name, size_t cap)
{
  cap = (cap + 4095) & ~(size_t)4095;
  uint8_t *p = mmap(NULL, cap + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p + GUARD, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
  return (region_t){ p + GUARD, p + GUARD + cap, name };
}

void region_ensure(region_t *r, size_t cap)
{
  if ((size_t)(r->hi - r->lo) >= cap)
    return;
  munmap(r->lo - GUARD, (size_t)(r->hi - r->lo) + 2 * GUARD);
  *r = region_make(r->name, cap * 2);
}

// ---------------------------------------------------------------------------------------------
sigjmp_buf guard_jmp;
volatile sig_atomic_t guard_armed;
fault_t guard_fault;

static void on_fault(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  if (!guard_armed)
  {
    const char m[] = "harness: unexpected signal outside a guarded call\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(4);
  }
  guard_armed = 0;
  guard_fault.sig = sig;
  guard_fault.addr = (uintptr_t)si->si_addr;
  guard_fault.write = sig == SIGSEGV && (uc->uc_mcontext.gregs[REG_ERR] & 2);
  siglongjmp(guard_jmp, 1);
}

void guard_init(void)
{
  static uint8_t alt[1 << 16];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof(alt) };
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_fault;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGVTALRM, SIGABRT };
  for (size_t i = 0; i < sizeof(sigs) / sizeof(*sigs); i++)
    sigaction(sigs[i], &sa, NULL);
}

void guard_arm(int seconds)
{
  memset(&guard_fault, 0, sizeof(guard_fault));
  struct itimerval it = { { 0, 0 }, { seconds, 0 } }; // CPU time: a call that never returns runs into it
  setitimer(ITIMER_VIRTUAL, &it, NULL);
}

void guard_disarm(void)
{
  guard_armed = 0;
}

// ---------------------------------------------------------------------------------------------
size_t pack_add(pack_t *k, const uint8_t *p, size_t n)
{
  if (k->n + n + 256 > k->cap)
  {
    k->cap = (k->n + n + 256) * 2;
    k->p = realloc(k->p, k->cap);
    if (!k->p) { perror("realloc"); exit(3); }
  }
  size_t o = k->n;
  memcpy(k->p + o, p, n);
  k->n += n;
  return o;
}

uint64_t rng_next(uint64_t *s)
{
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------------------------------------
// Plans (space separated items):
//   s<seed>            reseed the noise
//   U<n>               n bytes of noise without any repetition at distances 1,2,3,4,6,8,16
//   R<n>:<hex>         n bytes of the symbol <hex> repeated (cut at n)
//   A<a>:<n>           n bytes drawn from an alphabet of a symbols
//   Q<a>:<n>:<m>       n bytes made of runs (length 1..m) of symbols from an alphabet of a
//   P<size>:<a>:<n>:<m> n bytes made of runs (1..m repetitions, cut) of <size>-byte symbols, a different ones
//   G<size>:<l>:<r>:<k> k times: l bytes of noise (as U), then r bytes of a new random <size>-byte symbol
//   K<lanes>:<k>:<hex> k blocks of <lanes> bytes given by their places in the lane's list of recent symbols (at
//                      first 0, 1, 2, ..); <hex>: the places of one or more blocks, over and over
//   H<hex>             these bytes
//   X<off>:<hex>       overwrite at position <off> (negative: from the end) of what is there so far
//   *<k>               everything so far, k times in all
//   F<path>            contents of a file
typedef struct { uint8_t *p; size_t n, cap; } bb_t;
static void bb(bb_t *b, uint8_t v)
{
  if (b->n == b->cap)
  {
    b->cap = b->cap ? b->cap * 2 : 256;
    b->p = realloc(b->p, b->cap);
  }
  b->p[b->n++] = v;
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t hexs(const char **s, uint8_t *o, size_t cap)
{
  size_t n = 0;
  while (**s && **s != ' ' && **s != ':' && n < cap)
  {
    o[n++] = (uint8_t)(hexv((*s)[0]) << 4 | hexv((*s)[1]));
    *s += 2;
  }
  return n;
}

// a byte that repeats nothing at the distances of the symbol sizes
static void unique(bb_t *b, uint64_t *rs)
{
  static const int dist[] = { 1, 2, 3, 4, 6, 8, 16 };
  uint8_t v;
  int again;
  do
  {
    v = (uint8_t)(rng_next(rs) >> 11);
    again = 0;
    for (size_t d = 0; d < 7; d++)
      if (b->n >= (size_t)dist[d] && b->p[b->n - dist[d]] == v)
        again = 1;
  } while (again);
  bb(b, v);
}

uint8_t *plan_build(const char *plan, size_t *n)
{
  bb_t b = { 0 };
  uint64_t rs = 12345;
  uint8_t *recent = NULL;
  const char *s = plan;
  while (*s)
  {
    if (*s == ' ') { s++; continue; }
    char k = *s++;
    if (k == 's') { rs = strtoull(s, (char **)&s, 10) * 7919 + 1; }
    else if (k == '*') // everything so far, k times in all
    {
      size_t c = strtoull(s, (char **)&s, 10), have = b.n;
      for (size_t i = have; i < have * c; i++)
        bb(&b, b.p[i - have]);
    }
    else if (k == 'U')
    {
      size_t c = strtoull(s, (char **)&s, 10);
      for (size_t i = 0; i < c; i++)
        unique(&b, &rs);
    }
    else if (k == 'N') // noise
    {
      size_t c = strtoull(s, (char **)&s, 10);
      for (size_t i = 0; i < c; i++)
        bb(&b, (uint8_t)(rng_next(&rs) >> 11));
    }
    else if (k == 'R')
    {
      size_t c = strtoull(s, (char **)&s, 10);
      uint8_t sym[64];
      s++;
      size_t sn = hexs(&s, sym, sizeof(sym));
      for (size_t i = 0; i < c; i++)
        bb(&b, sym[i % sn]);
    }
    else if (k == 'A')
    {
      size_t a = strtoull(s, (char **)&s, 10);
      s++;
      size_t c = strtoull(s, (char **)&s, 10);
      for (size_t i = 0; i < c; i++)
        bb(&b, (uint8_t)((rng_next(&rs) >> 20) % a));
    }
    else if (k == 'Q')
    {
      size_t a = strtoull(s, (char **)&s, 10); s++;
      size_t c = strtoull(s, (char **)&s, 10); s++;
      size_t m = strtoull(s, (char **)&s, 10);
      size_t i = 0;
      while (i < c)
      {
        uint8_t v = (uint8_t)((rng_next(&rs) >> 20) % a);
        size_t l = 1 + (rng_next(&rs) >> 20) % m;
        for (; l && i < c; l--, i++)
          bb(&b, v);
      }
    }
    else if (k == 'P')
    {
      size_t z = strtoull(s, (char **)&s, 10); s++;
      size_t a = strtoull(s, (char **)&s, 10); s++;
      size_t c = strtoull(s, (char **)&s, 10); s++;
      size_t m = strtoull(s, (char **)&s, 10);
      uint8_t syms[64][16];
      for (size_t i = 0; i < 64; i++)
        for (size_t j = 0; j < 16; j++)
          syms[i][j] = (uint8_t)((rng_next(&rs) >> 20) % 3 * 127);
      size_t i = 0;
      while (i < c)
      {
        size_t v = (rng_next(&rs) >> 20) % a;
        size_t l = z * (rng_next(&rs) >> 20 & 1) + 1 + (rng_next(&rs) >> 20) % (m * z);
        for (size_t j = 0; j < l && i < c; j++, i++)
          bb(&b, syms[v & 63][j % z]);
      }
    }
    else if (k == 'G')
    {
      size_t z = strtoull(s, (char **)&s, 10); s++;
      size_t l = strtoull(s, (char **)&s, 10); s++;
      size_t r = strtoull(s, (char **)&s, 10); s++;
      size_t c = strtoull(s, (char **)&s, 10);
      for (size_t i = 0; i < c; i++)
      {
        for (size_t j = 0; j < l; j++)
          unique(&b, &rs);
        uint8_t sym[64];
        for (size_t j = 0; j < z && j < sizeof(sym); j++)
          sym[j] = (uint8_t)(rng_next(&rs) >> 11);
        for (size_t j = 0; j < r; j++)
          bb(&b, sym[j % z]);
      }
    }
    else if (k == 'K')
    {
      size_t lanes = strtoull(s, (char **)&s, 10); s++;
      size_t c = strtoull(s, (char **)&s, 10) * lanes;
      s++;
      uint8_t x[4096];
      size_t xn = hexs(&s, x, sizeof(x));
      if (!recent)
      {
        recent = malloc(64 * 256);
        for (size_t i = 0; i < 64 * 256; i++)
          recent[i] = (uint8_t)i;
      }
      for (size_t i = 0; i < c && xn && lanes <= 64; i++)
      {
        uint8_t *l = recent + i % lanes * 256, r = x[i % xn], v = l[r];
        memmove(l + 1, l, r);
        l[0] = v;
        bb(&b, v);
      }
    }
    else if (k == 'H')
    {
      uint8_t x[4096];
      size_t c = hexs(&s, x, sizeof(x));
      for (size_t i = 0; i < c; i++)
        bb(&b, x[i]);
    }
    else if (k == 'X')
    {
      long o = strtol(s, (char **)&s, 10);
      s++;
      uint8_t x[64];
      size_t c = hexs(&s, x, sizeof(x));
      if (o < 0)
        o += (long)b.n;
      for (size_t i = 0; i < c; i++)
        if (o >= 0 && (size_t)o + i < b.n)
          b.p[(size_t)o + i] = x[i];
    }
    else if (k == 'F')
    {
      char path[512];
      size_t c = 0;
      while (*s && *s != ' ' && c < sizeof(path) - 1)
        path[c++] = *s++;
      path[c] = 0;
      FILE *f = fopen(path, "rb");
      if (f)
      {
        int ch;
        while ((ch = fgetc(f)) != EOF)
          bb(&b, (uint8_t)ch);
        fclose(f);
      }
    }
    else { fprintf(stderr, "bad plan item '%c' in %s\n", k, plan); exit(3); }
  }
  free(recent);
  *n = b.n;
  if (!b.p)
    b.p = malloc(1);
  return b.p;
}
