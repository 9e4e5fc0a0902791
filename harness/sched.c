// Runs two calls in two threads under a schedule the specification chose.   sched OUTPREFIX 0 1 < jobs
// The library's writable data lies in pages of its own (see sections.S) that are kept inaccessible, so every access to state
// the calls could share traps: it is recorded, and a thread can be stopped right before its k-th access.
//   A <id> <start> <codec> <op> <plan>                                 one call alone: its accesses to shared state
//   S <id> <start> <schedule> <codec>:<op>:<plan;..> <codec>:<op>:<plan;..>
//   start: fresh (nothing detected yet) or a SIMD level;  op: c compress, d decompress
//   schedule: e.g. A3,B7,A*,B*: first thread up to its access number 3, second up to its access 7, then each to its end
// Each job runs in a process of its own.
#include "hrk.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <time.h>

extern uint8_t __start_hrkdata[], __stop_hrkdata[], __start_hrkbss[], __stop_hrkbss[];
enum { MAXACC = 60000, BUF = 1 << 17 };

typedef struct { uint32_t off; uint8_t write; } acc_t;
typedef struct { // lies in memory shared with the child
  uint32_t ret, accN, done, bufN;
  char fault[48];
  acc_t acc[MAXACC];
  uint8_t out[BUF];
} side_t;
static side_t *sides; // [2]

typedef struct { const codec_t_ *c; char op; uint8_t *in; uint32_t inN, outN; uint32_t n; } todo_t;
static pack_t pk;
static FILE *js;
static long calls;
static uint8_t *dataInit;

// ---- in the child -----------------------------------------------------------------------------------
static volatile bool tracing;
static sem_t go[2], back;
static volatile long limit[2];
static __thread int self = -1;
static __thread sigjmp_buf out_;

static void protect(int how)
{
  mprotect(__start_hrkdata, (size_t)(__stop_hrkdata - __start_hrkdata), how);
  mprotect(__start_hrkbss, ((size_t)(__stop_hrkbss - __start_hrkbss) + 4095) & ~4095ul, how);
}
static bool shared(uintptr_t a) { return (a >= (uintptr_t)__start_hrkdata && a < (uintptr_t)__stop_hrkdata) || (a >= (uintptr_t)__start_hrkbss && a < (((uintptr_t)__stop_hrkbss + 4095) & ~4095ul)); }

static void on_segv(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  uintptr_t a = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && self >= 0 && shared(a))
  {
    side_t *s = &sides[self];
    if (tracing && limit[self] >= 0 && (long)s->accN >= limit[self])
    {
      sem_post(&back); // stopped right before this access
      while (sem_wait(&go[self])) {}
    }
    if (!tracing) { protect(PROT_READ | PROT_WRITE); return; }
    if (s->accN < MAXACC)
    {
      s->acc[s->accN].off = (uint32_t)(a >= (uintptr_t)__start_hrkbss && a < (uintptr_t)__stop_hrkbss ? 0x100000 + (a - (uintptr_t)__start_hrkbss) : a - (uintptr_t)__start_hrkdata);
      s->acc[s->accN].write = (uc->uc_mcontext.gregs[REG_ERR] & 2) != 0;
      s->accN++;
    }
    protect(PROT_READ | PROT_WRITE);
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
    return;
  }
  if (self >= 0)
  {
    guard_fault.sig = sig;
    snprintf(sides[self].fault, 48, "signal %d", sig);
    siglongjmp(out_, 1);
  }
  _exit(5);
}
static void on_step(int sig, siginfo_t *si, void *uc_)
{
  ucontext_t *uc = uc_;
  (void)sig; (void)si;
  uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  if (tracing) protect(PROT_NONE);
}

static todo_t todo[2];
static void *runner(void *p)
{
  self = (int)(intptr_t)p;
  const todo_t *t = &todo[self];
  while (sem_wait(&go[self])) {}
  if (!sigsetjmp(out_, 1))
  {
    uint32_t r = (t->op == 'c' ? t->c->comp : t->c->dec)(t->in, t->inN, sides[self].out, t->outN);
    sides[self].ret = r;
  }
  sides[self].done = 1;
  sem_post(&back);
  return NULL;
}

static bool wait_back(int ms)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_nsec += (long)ms * 1000000l;
  ts.tv_sec += ts.tv_nsec / 1000000000l;
  ts.tv_nsec %= 1000000000l;
  int r;
  while ((r = sem_timedwait(&back, &ts)) && errno == EINTR) {}
  return r == 0;
}

static int level_of(const char *s) { for (int i = 0; i < LV_COUNT; i++) if (!strcmp(levelName[i], s)) return i; return -1; }

static void fresh_state(void)
{
  memcpy(__start_hrkdata, dataInit, (size_t)(__stop_hrkdata - __start_hrkdata));
  memset(__start_hrkbss, 0, (size_t)(__stop_hrkbss - __start_hrkbss));
}

static void child(const char *start, const char *sched, int threads)
{
  struct itimerval it = { { 0, 0 }, { 10, 0 } };
  signal(SIGVTALRM, SIG_DFL);
  setitimer(ITIMER_VIRTUAL, &it, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sa.sa_sigaction = on_segv;
  sigaction(SIGSEGV, &sa, NULL);
  sigaction(SIGBUS, &sa, NULL);
  sigaction(SIGILL, &sa, NULL);
  sigaction(SIGFPE, &sa, NULL);
  sa.sa_sigaction = on_step;
  sigaction(SIGTRAP, &sa, NULL);
  fresh_state();
  if (strcmp(start, "fresh"))
    set_level(level_of(start));
  sem_init(&go[0], 0, 0); sem_init(&go[1], 0, 0); sem_init(&back, 0, 0);
  pthread_t th[2];
  for (int i = 0; i < threads; i++)
    pthread_create(&th[i], NULL, runner, (void *)(intptr_t)i);
  usleep(0);
  limit[0] = limit[1] = -1;
  tracing = true;
  protect(PROT_NONE);
  char t[400];
  snprintf(t, sizeof(t), "%s", sched);
  char *sp;
  for (char *p = strtok_r(t, ",", &sp); p; p = strtok_r(NULL, ",", &sp))
  {
    int who = p[0] - 'A';
    if (who >= threads || sides[who].done) continue;
    limit[who] = p[1] == '*' ? -1 : atol(p + 1);
    sem_post(&go[who]);
    if (!wait_back(1500)) // it waits for the other one (a lock, say): let both go on freely
    {
      tracing = false;
      protect(PROT_READ | PROT_WRITE);
      for (int i = 0; i < threads; i++) { limit[i] = -1; if (i != who) sem_post(&go[i]); }
      while ((!sides[0].done || (threads > 1 && !sides[1].done)) && wait_back(8000)) {}
      _exit(sides[0].done && (threads < 2 || sides[1].done) ? 0 : 6);
    }
  }
  tracing = false;
  protect(PROT_READ | PROT_WRITE);
  _exit(0);
}

// ---- parent -------------------------------------------------------------------------------------------
static bool run(const char *start, const char *sched, int threads)
{
  for (int i = 0; i < 2; i++)
  {
    sides[i].ret = sides[i].accN = sides[i].done = 0;
    sides[i].fault[0] = 0;
    memset(sides[i].out, 0x5A, todo[i].outN + 256 < BUF ? todo[i].outN + 256 : BUF);
  }
  calls += threads;
  pid_t p = fork();
  if (p == 0)
    child(start, sched, threads);
  int st;
  waitpid(p, &st, 0);
  for (int i = 0; i < threads; i++)
    if (!sides[i].done && !sides[i].fault[0])
      snprintf(sides[i].fault, 48, WIFSIGNALED(st) ? "killed by %d" : "did not finish", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

typedef struct { char key[400]; uint32_t ret; size_t off; char fault[48]; } solo_t;
static solo_t *solos;
static size_t soloN, soloCap;

static bool prepare(todo_t *t, const char *codec, char op, const char *plan)
{
  int ci = codec_by_name(codec);
  if (ci < 0) { fprintf(stderr, "unknown codec %s\n", codec); exit(3); }
  size_t n;
  uint8_t *input = plan_build(plan, &n);
  t->c = &codecs[ci];
  t->op = op;
  t->n = (uint32_t)n;
  uint32_t bd = t->c->bounds((uint32_t)n);
  if (op == 'c') { t->in = input; t->inN = (uint32_t)n; t->outN = bd; return bd + 256 < BUF; }
  uint8_t *s = malloc(bd + 256);
  set_level(LV_SSE2);
  volatile uint32_t m = 0;
  if (!GUARDED(8, m = t->c->comp(input, (uint32_t)n, s, bd)) || !m || m > bd || n + 256 > BUF) { free(s); free(input); return false; }
  free(input);
  t->in = s; t->inN = m; t->outN = (uint32_t)n;
  return true;
}

// the call alone, in a process of its own
static solo_t *solo(const todo_t *t, const char *start, const char *key)
{
  for (size_t i = 0; i < soloN; i++)
    if (!strcmp(solos[i].key, key))
      return &solos[i];
  if (soloN == soloCap) solos = realloc(solos, (soloCap = soloCap ? soloCap * 2 : 64) * sizeof(*solos));
  solo_t *s = &solos[soloN++];
  snprintf(s->key, sizeof(s->key), "%s", key);
  todo[0] = *t;
  run(start, "A*", 1);
  s->ret = sides[0].ret;
  snprintf(s->fault, 48, "%s", sides[0].fault);
  s->off = pack_add(&pk, sides[0].out, sides[0].ret <= t->outN ? sides[0].ret : 0);
  return s;
}

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
  char path[512];
  snprintf(path, sizeof(path), "%s.json", argv[1]);
  js = fopen(path, "w");
  dataInit = malloc((size_t)(__stop_hrkdata - __start_hrkdata) + 1);
  memcpy(dataInit, __start_hrkdata, (size_t)(__stop_hrkdata - __start_hrkdata));
  guard_init();
  levels_init();
  sides = mmap(NULL, 2 * sizeof(side_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pack_add(&pk, (const uint8_t *)"HRK!", 4);
  static char line[1 << 16];
  while (fgets(line, sizeof(line), stdin))
  {
    line[strcspn(line, "\n")] = 0;
    char kind = line[0];
    char *id = strtok(line + 1, " "), *start = strtok(NULL, " ");
    if (strcmp(start, "fresh") && !level_available(level_of(start)))
      continue;
    if (kind == 'A')
    {
      char *codec = strtok(NULL, " "), *op = strtok(NULL, " "), *plan = strtok(NULL, "");
      todo_t t;
      if (!prepare(&t, codec, *op, plan ? plan : "")) continue;
      todo[0] = t;
      run(start, "A*", 1);
      int writes = 0;
      for (uint32_t i = 0; i < sides[0].accN; i++) writes += sides[0].acc[i].write;
      fprintf(js, "{\"k\":\"A\",\"id\":\"%s\",\"st\":\"%s\",\"c\":\"%s\",\"op\":\"%s\",\"p\":\"%s\",\"r\":%u,\"f\":\"%s\",\"n\":%u,\"wr\":%d,\"acc\":[", id, start, codec, op, plan ? plan : "", sides[0].ret, sides[0].fault, sides[0].accN, writes);
      // positions of the writes (all of a short trace; the first and last of a long one)
      for (uint32_t i = 0, k = 0, f = 0; i < sides[0].accN; i++)
        if (sides[0].acc[i].write)
        {
          if (k < 12 || (int)k >= writes - 6 || (writes > 40 && k % (uint32_t)(writes / 20) == 0)) fprintf(js, "%s%u", f++ ? "," : "", i);
          k++;
        }
      fputs("]}\n", js);
      free(t.in);
    }
    else
    {
      char *sched = strtok(NULL, " "), *sa = strtok(NULL, " "), *sb = strtok(NULL, " ");
      char *spec[2] = { sa, sb }, keys[2][400];
      todo_t t[2];
      bool ok = true;
      for (int i = 0; i < 2; i++)
      {
        snprintf(keys[i], 400, "%s %s", start, spec[i]);
        char *c = strtok(spec[i], ":"), *op = strtok(NULL, ":"), *plan = strtok(NULL, "");
        for (char *q = plan; q && *q; q++) if (*q == ';') *q = ' ';
        spec[i] = c;
        if (ok && !prepare(&t[i], c, *op, plan ? plan : "")) { ok = false; if (i) free(t[0].in); }
      }
      if (!ok) continue;
      solo_t one[2] = { *solo(&t[0], start, keys[0]), *solo(&t[1], start, keys[1]) };
      todo[0] = t[0]; todo[1] = t[1];
      run(start, sched, 2);
      fprintf(js, "{\"k\":\"S\",\"id\":\"%s\",\"st\":\"%s\",\"c\":\"%s\",\"sch\":\"%s\",\"th\":[", id, start, spec[0], sched);
      for (int i = 0; i < 2; i++)
      {
        uint32_t len = sides[i].ret <= t[i].outN ? sides[i].ret : 0;
        size_t off = sides[i].ret == one[i].ret && !memcmp(pk.p + one[i].off, sides[i].out, len) ? one[i].off : pack_add(&pk, sides[i].out, len);
        fprintf(js, "%s{\"c\":\"%s\",\"op\":\"%c\",\"r\":%u,\"f\":\"%s\",\"o\":%zu,\"sr\":%u,\"sf\":\"%s\",\"so\":%zu}", i ? "," : "", spec[i], t[i].op, sides[i].ret, sides[i].fault, off, one[i].ret, one[i].fault, one[i].off);
        free(t[i].in);
      }
      fputs("]}\n", js);
    }
    fflush(js);
  }
  fclose(js);
  snprintf(path, sizeof(path), "%s.pack", argv[1]);
  FILE *f = fopen(path, "wb");
  fwrite(pk.p, 1, pk.n, f);
  fclose(f);
  fprintf(stderr, "calls %ld\n", calls);
  return 0;
}
