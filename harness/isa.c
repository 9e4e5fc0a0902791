// Runs calls on an emulated machine: cpuid and xgetbv answer what the job says, and every instruction of the library that
// needs an extension the job forbids is replaced by a trap.   isa OUTPREFIX TABLE LIBSECTION < jobs
//   V <id> <leaf> <cpu,cpu,..> <osxsave> <xcr0> <cut> <forbidden,..> <codec,..|all> <plan>
//   leaf: highest cpuid leaf; cpu: reported extensions; xcr0: value in hex; cut: level the caller restricts the library to, or -
// One event per job: the calls made and the forbidden instructions reached.
#include "hrk.h"

static const char *className[] = { "base", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f", "avx512vl", "avx512bw", "avx512dq", "avx512cd",
  "avx512other", "bmi1", "bmi2", "lzcnt", "popcnt", "fma", "f16c", "movbe", "aes", "pclmul", "sha", "adx", "other", "cpuid", "xgetbv" };
enum { CLASSES = sizeof(className) / sizeof(*className), C_CPUID = CLASSES - 2, C_XGETBV = CLASSES - 1 };

extern uint8_t __start_hrktext[], __stop_hrktext[];
extern uint8_t __start_hrkdata[], __stop_hrkdata[], __start_hrkbss[], __stop_hrkbss[];
typedef struct { uint32_t off; uint32_t mask; uint8_t first; } site_t;
static site_t *sites;
static size_t siteN;

static struct { uint32_t leaf, r[8][4]; bool osx; uint32_t xcr0; } mach;
static volatile uint32_t trapMask;
static volatile int trapSite;

static site_t *site_at(uint32_t off)
{
  size_t lo = 0, hi = siteN;
  while (lo < hi)
  {
    size_t m = (lo + hi) / 2;
    if (sites[m].off < off) lo = m + 1; else hi = m;
  }
  return lo < siteN && sites[lo].off == off ? &sites[lo] : NULL;
}

static void on_trap(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  greg_t *g = uc->uc_mcontext.gregs;
  uint64_t at = (uint64_t)g[REG_RIP] - 1;
  (void)sig; (void)si;
  if (at >= (uint64_t)__start_hrktext && at < (uint64_t)__stop_hrktext)
  {
    site_t *s = site_at((uint32_t)(at - (uint64_t)__start_hrktext));
    if (s && s->mask == 1u << C_CPUID)
    {
      uint32_t leaf = (uint32_t)g[REG_RAX], sub = (uint32_t)g[REG_RCX];
      uint32_t v[4] = { 0 };
      if (leaf == 0) { v[0] = mach.leaf; v[1] = 0x756e6547; v[3] = 0x49656e69; v[2] = 0x6c65746e; }
      else if (leaf >= 0x80000000u) v[0] = leaf == 0x80000000u ? 0x80000001u : 0;
      else if (leaf > mach.leaf) memcpy(v, mach.r[mach.leaf], sizeof(v)); // as processors do
      else if (leaf != 7 || sub == 0) memcpy(v, mach.r[leaf], sizeof(v));
      g[REG_RAX] = v[0]; g[REG_RBX] = v[1]; g[REG_RCX] = v[2]; g[REG_RDX] = v[3];
      g[REG_RIP] = (greg_t)(at + 2);
      return;
    }
    if (s && s->mask == 1u << C_XGETBV && mach.osx)
    {
      g[REG_RAX] = mach.xcr0;
      g[REG_RDX] = 0;
      g[REG_RIP] = (greg_t)(at + 3);
      return;
    }
    if (s)
    {
      trapMask = s->mask;
      trapSite = (int)s->off;
    }
  }
  if (!guard_armed) _exit(4);
  guard_armed = 0;
  guard_fault.sig = SIGTRAP;
  siglongjmp(guard_jmp, 1);
}

static uint32_t mask_of(const char *list)
{
  uint32_t m = 0;
  char t[512];
  snprintf(t, sizeof(t), "%s", list);
  char *sp;
  for (char *p = strtok_r(t, ",", &sp); p; p = strtok_r(NULL, ",", &sp))
    for (int i = 0; i < CLASSES; i++)
      if (!strcmp(p, className[i]))
        m |= 1u << i;
  return m;
}
static int cls(const char *n) { for (int i = 0; i < CLASSES; i++) if (!strcmp(n, className[i])) return i; return 0; }

static void apply(uint32_t forbidden)
{
  forbidden |= 1u << C_CPUID | 1u << C_XGETBV; // always trapped: answered by the handler
  for (size_t i = 0; i < siteN; i++)
    __start_hrktext[sites[i].off] = sites[i].mask & forbidden ? 0xCC : sites[i].first;
}

static region_t rin, rout;
static FILE *js;
static long calls;

static void clear_flags(void)
{
  memset(__start_hrkdata, 0, 0); // initialised data stays as it is: feature flags are zero-initialised
  memset(__start_hrkbss, 0, (size_t)(__stop_hrkbss - __start_hrkbss));
}

static void cut_to(int lv)
{
  _DetectCPUFeatures();
  // what the command line tool does for --max-simd
  if (lv > LV_AVX512F) avx512FSupported = avx512PFSupported = avx512ERSupported = avx512CDSupported = avx512BWSupported = avx512DQSupported = avx512VLSupported = avx512IFMASupported = avx512VBMISupported = avx512VNNISupported = avx512VBMI2Supported = avx512POPCNTDQSupported = avx512BITALGSupported = avx5124VNNIWSupported = avx5124FMAPSSupported = false;
  if (lv > LV_AVX2) avx2Supported = false;
  if (lv > LV_AVX) avxSupported = false;
  if (lv > LV_SSE42) sse42Supported = false;
  if (lv > LV_SSE41) sse41Supported = false;
  if (lv > LV_SSSE3) ssse3Supported = false;
  if (lv > LV_SSE3) sse3Supported = false;
  if (lv > LV_SSE2) sse2Supported = false;
}

int main(int argc, char **argv)
{
  if (argc < 4) return 2;
  char path[512];
  snprintf(path, sizeof(path), "%s.json", argv[1]);
  js = fopen(path, "w");
  guard_init();
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  // the real machine decides what can run at all
  __builtin_cpu_init();
  uint64_t base = strtoull(argv[3], NULL, 16); // address of the library section in the file
  FILE *t = fopen(argv[2], "r");
  size_t cap = 0;
  unsigned long long a; unsigned m;
  while (t && fscanf(t, "%llx %x", &a, &m) == 2)
  {
    if (siteN == cap) sites = realloc(sites, (cap = cap ? cap * 2 : 1024) * sizeof(*sites));
    sites[siteN++] = (site_t){ (uint32_t)(a - base), m, __start_hrktext[a - base] };
  }
  uintptr_t lo = (uintptr_t)__start_hrktext & ~4095ul, hi = ((uintptr_t)__stop_hrktext + 4095) & ~4095ul;
  if (mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); return 3; }
  uint32_t have = ~0u;
  if (!__builtin_cpu_supports("avx512f")) have &= ~(1u << cls("avx512f"));
  if (!__builtin_cpu_supports("avx2")) have &= ~(1u << cls("avx2"));
  if (!__builtin_cpu_supports("avx")) have &= ~(1u << cls("avx"));
  rin = region_make("in", 1 << 21);
  rout = region_make("out", 1 << 21);
  static uint8_t stream[1 << 21];
  static char line[1 << 20];
  char last[600] = "";
  while (fgets(line, sizeof(line), stdin))
  {
    line[strcspn(line, "\n")] = 0;
    char *id = strtok(line + 1, " ");
    char *leaf = strtok(NULL, " "), *cpu = strtok(NULL, " "), *osx = strtok(NULL, " "), *xcr = strtok(NULL, " "), *cut = strtok(NULL, " "), *forb = strtok(NULL, " "), *names = strtok(NULL, " "), *plan = strtok(NULL, "");
    uint32_t reported = mask_of(cpu), forbidden = mask_of(forb);
    char key[600];
    snprintf(key, sizeof(key), "%s|%s|%s|%s|%s|%s", leaf, cpu, osx, xcr, cut, forb);
    if (reported & ~have & ~forbidden) continue; // this machine cannot stand in for that one
#define HAS(n) ((reported >> cls(n)) & 1u)
    mach.leaf = (uint32_t)atoi(leaf);
    mach.osx = *osx == '1';
    mach.xcr0 = (uint32_t)strtoul(xcr, NULL, 16);
    memset(mach.r, 0, sizeof(mach.r));
    mach.r[1][2] = HAS("sse3") << 0 | HAS("ssse3") << 9 | HAS("sse4.1") << 19 | HAS("sse4.2") << 20 | HAS("avx") << 28 | HAS("popcnt") << 23 | HAS("fma") << 12 | HAS("f16c") << 29 | HAS("movbe") << 22 | HAS("aes") << 25 | HAS("pclmul") << 1 | (HAS("avx") | (uint32_t)mach.osx) << 26 | (uint32_t)mach.osx << 27 | (uint32_t)mach.osx << 26;
    mach.r[1][1] = 0xffffffffu; // brand, cache line, APIC id: says nothing about extensions
    memset(mach.r[4], 0xff, sizeof(mach.r[4]));
    mach.r[1][3] = 1u << 25 | 1u << 26 | 1u << 0;
    mach.r[7][1] = HAS("avx2") << 5 | HAS("avx512f") << 16 | HAS("avx512dq") << 17 | HAS("avx512cd") << 28 | HAS("avx512bw") << 30 | HAS("avx512vl") << 31 | HAS("bmi1") << 3 | HAS("bmi2") << 8;
    if (strcmp(key, last))
      apply(forbidden);
    strcpy(last, key);
    int cl = -1;
    for (int i = 0; i < LV_COUNT; i++)
      if (!strcmp(cut, levelName[i])) cl = i;
    size_t n;
    uint8_t *input = plan_build(plan ? plan : "", &n);
    struct { int codec; char op; uint32_t mask; int site; char f[40]; } traps[64];
    int trapN = 0, done = 0;
    char *sp = NULL;
    bool all = !strcmp(names, "all");
    char *nm = all ? NULL : strtok_r(names, ",", &sp);
    for (int ci = 0; all ? ci < codecN : nm != NULL; ci++, nm = all ? NULL : strtok_r(NULL, ",", &sp))
    {
      const codec_t_ *c = &codecs[all ? ci : codec_by_name(nm)];
      uint32_t bd = c->bounds((uint32_t)n);
      for (int v = 0; v < 2; v++)
      {
        uint8_t *in = rin.lo + (v ? 67 : 128), *out = rout.lo + (v ? 33 : 128);
        region_ensure(&rin, (bd > n ? bd : n) + 4096);
        region_ensure(&rout, (bd > n ? bd : n) + 4096);
        in = rin.lo + (v ? 67 : 128); out = rout.lo + (v ? 33 : 128);
        volatile uint32_t m = 0, r = 0;
        for (int op = 0; op < 2; op++)
        {
          if (op == 0) memcpy(in, input, n);
          else
          {
            if (!m || m > sizeof(stream)) break;
            memcpy(stream, out, m);
            memcpy(in, stream, m);
          }
          trapMask = 0;
          bool ok;
          calls++;
          done++;
          clear_flags(); // every call is the first one on a fresh machine
          if (op == 0) ok = GUARDED(8, (cl >= 0 ? cut_to(cl) : (void)0, m = c->comp(in, (uint32_t)n, out, bd)));
          else ok = GUARDED(8, (cl >= 0 ? cut_to(cl) : (void)0, r = c->dec(in, m, out, (uint32_t)n)));
          if (!ok)
          {
            if (op == 0) m = 0;
            if (trapN < 64)
            {
              traps[trapN].codec = (int)(c - codecs); traps[trapN].op = op ? 'd' : 'c'; traps[trapN].mask = trapMask; traps[trapN].site = trapSite;
              snprintf(traps[trapN].f, 40, "signal %d", guard_fault.sig);
              trapN++;
            }
          }
        }
      }
    }
    fprintf(js, "{\"k\":\"V\",\"id\":\"%s\",\"c\":\"%s\",\"leaf\":%s,\"osx\":%s,\"cut\":\"%s\",\"calls\":%d,\"xcr\":[", id, trapN ? codecs[traps[0].codec].name : "-", leaf, osx, cut, done);
    for (int b = 0, f = 0; b < 8; b++) if (mach.xcr0 >> b & 1) fprintf(js, "%s%d", f++ ? "," : "", b);
    fputs("],\"cpu\":[", js);
    for (int b = 0, f = 0; b < CLASSES; b++) if (reported >> b & 1) fprintf(js, "%s\"%s\"", f++ ? "," : "", className[b]);
    fputs("],\"t\":[", js);
    for (int i = 0; i < trapN; i++)
    {
      fprintf(js, "%s{\"c\":\"%s\",\"op\":\"%c\",\"f\":\"%s\",\"x\":[", i ? "," : "", codecs[traps[i].codec].name, traps[i].op, traps[i].f);
      for (int b = 0, f = 0; b < CLASSES; b++) if (traps[i].mask >> b & 1) fprintf(js, "%s\"%s\"", f++ ? "," : "", className[b]);
      fputs("]}", js);
    }
    fputs("]}\n", js);
    fflush(js);
    free(input);
  }
  fclose(js);
  snprintf(path, sizeof(path), "%s.pack", argv[1]);
  FILE *f = fopen(path, "wb");
  fputs("HRK!", f);
  fclose(f);
  fprintf(stderr, "calls %ld\n", calls);
  return 0;
}
