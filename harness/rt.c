// Runs compress / decompress jobs on the real code and records what happened.
//   rt OUTPREFIX SHARD NSHARDS < jobs
// Job lines:
//   E <id>[:<allowed size>] <codec,codec,...> <plan>          compress the planned input with each codec at every SIMD level and in
//                                            every buffer placement, then decompress every distinct result the same way
//   N <id> <codec> <hi> <lo>                 ask for the bound of an input of hi * 65536 + lo bytes
//   D <id> <codec> <outSize> <plan>          decompress the planned stream at every level / placement
// Writes OUTPREFIX.pack (bytes) and OUTPREFIX.json (one event per line; buffers are [offset] into the pack).
#include "hrk.h"

static region_t rin, rout;
static pack_t pk;
static FILE *js;
static int slackIn = 128;
static int CPUSEC = 8;
static int hangs;
static long calls;

enum { V_TIGHT, V_LOW, V_ODD, V_COUNT };
static const char *vname[] = { "tight", "low", "odd" };

// fault: the call did not return; breach: it returned, but touched what it must not touch
typedef struct { uint32_t ret; size_t off; char fault[48], breach[48]; char who[1600]; unsigned lvs, pls; int n; } res_t;

static void setfault(char *f, const uint8_t *in, size_t inN, const uint8_t *out, size_t outN)
{
  if (guard_fault.sig == SIGSEGV || guard_fault.sig == SIGBUS)
  {
    const char *rw = guard_fault.write ? "write" : "read";
    intptr_t a = (intptr_t)guard_fault.addr;
    intptr_t di = a - (intptr_t)in, dO = a - (intptr_t)out;
    if (di >= -(1 << 20) && di < (intptr_t)inN + (1 << 20))
      snprintf(f, 48, "%s in%s", rw, di < 0 ? " before" : " after");
    else if (dO >= -(1 << 20) && dO < (intptr_t)outN + (1 << 20))
      snprintf(f, 48, "%s out%s", rw, dO < 0 ? " before" : " after");
    else
      snprintf(f, 48, "wild %s", rw);
  }
  else if (guard_fault.sig == SIGVTALRM)
  {
    snprintf(f, 48, "hang");
    hangs++;
  }
  else
    snprintf(f, 48, "signal %d", guard_fault.sig);
}

static int add_res(res_t *rs, int n, const res_t *r, const uint8_t *bytes, size_t len, const uint8_t *ref, size_t refN, size_t refOff, int lv, int v)
{
  int i;
  for (i = 0; i < n; i++)
    if (rs[i].ret == r->ret && !strcmp(rs[i].fault, r->fault) && !strcmp(rs[i].breach, r->breach) && (len == 0 || !memcmp(pk.p + rs[i].off, bytes, len)))
      break;
  if (i == n)
  {
    if (n >= 60)
      return n;
    rs[i] = *r;
    rs[i].n = 0;
    rs[i].lvs = rs[i].pls = 0;
    rs[i].who[0] = 0;
    int j;
    for (j = 0; j < n; j++)
      if (rs[j].ret == r->ret && rs[j].fault[0] == 0 && r->fault[0] == 0 && (len == 0 || !memcmp(pk.p + rs[j].off, bytes, len)))
        break;
    if (j < n)
      rs[i].off = rs[j].off;
    else if (ref && len == refN && !memcmp(ref, bytes, len))
      rs[i].off = refOff;
    else
      rs[i].off = len ? pack_add(&pk, bytes, len) : 0;
    n++;
  }
  rs[i].n++;
  rs[i].lvs |= 1u << lv;
  rs[i].pls |= 1u << v;
  char who[40];
  snprintf(who, sizeof(who), "%s/%s", levelName[lv], vname[v]);
  if (strlen(rs[i].who) + strlen(who) + 2 < sizeof(rs[i].who))
  {
    if (rs[i].who[0])
      strcat(rs[i].who, " ");
    strcat(rs[i].who, who);
  }
  return n;
}

// `skew` chooses the alignment of the oddly placed buffer; it depends on the data alone, so that a replay sees the same one
static uint8_t *place(region_t *r, size_t n, int v, size_t slack, unsigned skew)
{
  region_ensure(r, n + slack + 8192);
  if (v == V_TIGHT)
    return r->hi - n - slack;
  if (v == V_LOW)
    return r->lo;
  static const uint8_t shift[] = { 67, 80, 64, 96, 112, 65, 72, 127 }; // relative to a page
  return r->lo + shift[skew & 7];
}

// One call. `before`/`after` bytes around the input and the prefill of the output differ between placements.
static void call(codec_fn fn, bool dec, const uint8_t *src, uint32_t srcN, uint32_t inSizeArg, uint32_t outSizeArg, size_t outSlack, int v, int unit, res_t *r, const uint8_t **obytes)
{
  size_t islack = dec ? (size_t)slackIn : 0;
  size_t pad = v == V_TIGHT ? 0 : 256;
  size_t spare = inSizeArg > srcN ? inSizeArg - srcN : 0;
  uint32_t mix = srcN * 2654435761u;
  for (size_t i = 0; i < srcN && i < 96; i++)
    mix = (mix ^ src[i]) * 16777619u;
  uint8_t *in = place(&rin, srcN + spare, v, islack + (v == V_TIGHT ? 0 : pad), mix >> 11);
  uint8_t *out = place(&rout, outSizeArg, v, outSlack + (v == V_TIGHT ? 0 : pad), mix >> 19);
  static const uint8_t fill[] = { 0xA5, 0x00, 0xFF };

  memcpy(in, src, srcN);
  size_t tailN = v == V_TIGHT ? islack + spare : 256 + spare + (dec ? islack : 0);
  for (size_t i = 0; i < tailN; i++) // what lies behind the input: continues its last symbol / zeros / noise
    in[srcN + i] = v == V_LOW ? (srcN >= (size_t)unit ? in[srcN + i - unit] : in[0]) : v == V_ODD ? (uint8_t)(i * 37 + 11) : 0;
  size_t lead = (size_t)(in - rin.lo) < 64 ? (size_t)(in - rin.lo) : 64;
  for (size_t i = 1; i <= lead; i++)
    in[-(intptr_t)i] = v == V_ODD ? in[0] : 0x33;

  size_t outPad = v == V_TIGHT ? 0 : pad;
  size_t outN = (size_t)outSizeArg + outSlack;
  memset(out, fill[v], outN + outPad);
  size_t olead = (size_t)(out - rout.lo) < 64 ? (size_t)(out - rout.lo) : 64;
  memset(out - olead, 0x77, olead);

  memset(r, 0, sizeof(*r));
  volatile uint32_t ret = 0;
  calls++;
  if (!GUARDED(CPUSEC, ret = fn(in, inSizeArg, out, outSizeArg)))
  {
    setfault(r->fault, in, srcN + spare + islack, out, outN);
    ret = 0;
  }
  else
  {
    for (size_t i = 0; i < outPad; i++)
      if (out[outN + i] != fill[v]) { snprintf(r->breach, 48, "write out after"); break; }
    for (size_t i = 1; i <= olead; i++)
      if (out[-(intptr_t)i] != 0x77) { snprintf(r->breach, 48, "write out before"); break; }
    if (memcmp(in, src, srcN))
      snprintf(r->breach, 48, "input modified");
    if (!r->breach[0] && ret > outSizeArg)
      snprintf(r->breach, 48, "returned size exceeds buffer");
  }
  r->ret = ret;
  *obytes = out;
}

static void jbits(const char *name, unsigned m)
{
  fprintf(js, "\"%s\":[", name);
  for (int i = 0, f = 0; i < 32; i++)
    if (m >> i & 1)
      fprintf(js, "%s%d", f++ ? "," : "", i);
  fputs("],", js);
}

static void jres(const res_t *r)
{
  fprintf(js, "{\"r\":%u,\"o\":%zu,\"f\":\"%s\",\"b\":\"%s\",", r->ret > 0x7fffffff ? 0x7fffffff : r->ret, r->off, r->fault, r->breach);
  jbits("lv", r->lvs);
  jbits("pl", r->pls);
  fprintf(js, "\"w\":%d", r->n);
}

static int decode_all(const codec_t_ *c, const uint8_t *s, uint32_t sN, uint32_t n, const uint8_t *ref, size_t refN, size_t refOff, res_t *ds)
{
  int dn = 0;
  for (int lv = 0; lv < LV_COUNT; lv++)
  {
    if (!level_available(lv))
      continue;
    set_level(lv);
    for (int v = 0; v < V_COUNT; v++)
    {
      res_t r;
      const uint8_t *o;
      // roomy placements also state larger buffer sizes than needed
      uint32_t extra = v == V_ODD ? 77 : 0, extraIn = v == V_ODD ? 19 : 0;
      bool transform = c->bounds == mmtf_bounds || c->bounds == bitmmtf_bounds;
      if (transform)
        extraIn = 0;
      call(c->dec, true, s, sN, sN + extraIn, n + extra, rle_decompress_additional_size(), v, c->unit, &r, &o);
      size_t len = r.ret <= n ? r.ret : n;
      dn = add_res(ds, dn, &r, o, r.fault[0] ? 0 : len, ref, refN, refOff, lv, v);
    }
  }
  return dn;
}

// asks the library for the original length where it offers that
static void size_query(const codec_t_ *c, const uint8_t *s, uint32_t sN, char *text)
{
  volatile uint32_t q = 0;
  if (strncmp(c->name, "rle8_low_entropy", 16))
    return;
  uint8_t *p = place(&rin, sN, V_TIGHT, 0, 0);
  memcpy(p, s, sN);
  if (!GUARDED(CPUSEC, q = rle8_low_entropy_decompressed_size(p, sN)))
    q = 0;
  sprintf(text, ",\"q\":%u", q > 0x7fffffff ? 0x7fffffff : q);
}

// ---- calls remembered, to be made again later, after other calls -----------------------------------------------
typedef struct { char id[16]; const codec_t_ *c; int lv; bool dec; size_t in; uint32_t inN, outN, ret; size_t off; } past_t;
static past_t *past;
static size_t pastN, pastCap;

static void remember(const char *id, const codec_t_ *c, bool dec, size_t in, uint32_t inN, uint32_t outN, const res_t *rs, int n, int turn)
{
  if (!strncmp(c->name, "rle8m_any", 9) || strstr(c->name, "_table")) return; // these have a parameter
  for (int k = 0; k < LV_COUNT; k++)
  {
    int lv = (turn + k) % LV_COUNT;
    for (int i = 0; i < n; i++)
      if ((rs[i].lvs >> lv & 1) && !rs[i].fault[0])
      {
        if (pastN == pastCap)
          past = realloc(past, (pastCap = pastCap ? pastCap * 2 : 4096) * sizeof(*past));
        past_t *p = &past[pastN++];
        memset(p, 0, sizeof(*p));
        snprintf(p->id, sizeof(p->id), "%s", id);
        p->c = c; p->lv = lv; p->dec = dec; p->in = in; p->inN = inN; p->outN = outN; p->ret = rs[i].ret; p->off = rs[i].off;
        return;
      }
  }
}

static void again(void)
{
  for (size_t i = pastN; i-- > 0 && hangs < 3;)
  {
    past_t *p = &past[i];
    res_t r;
    const uint8_t *o;
    uint8_t *copy = malloc(p->inN + 1);
    memcpy(copy, pk.p + p->in, p->inN);
    set_level(p->lv);
    call(p->dec ? p->c->dec : p->c->comp, p->dec, copy, p->inN, p->inN, p->outN, p->dec ? rle_decompress_additional_size() : 0, (int)(i % V_COUNT), p->c->unit, &r, &o);
    free(copy);
    size_t len = r.fault[0] ? 0 : r.ret <= p->outN ? r.ret : p->outN;
    size_t off = len == p->ret && !memcmp(pk.p + p->off, o, len) ? p->off : len ? pack_add(&pk, o, len) : 0;
    fprintf(js, "{\"k\":\"H\",\"id\":\"%s\",\"c\":\"%s\",\"op\":\"%s\",\"lv\":%d,\"r\":%u,\"o\":%zu,\"r2\":%u,\"o2\":%zu,\"f\":\"%s\"}\n", p->id, p->c->name, p->dec ? "d" : "c", p->lv, p->ret, p->off, r.ret, off, r.fault);
  }
}

int main(int argc, char **argv)
{
  if (argc < 4) return 2;
  int shard = atoi(argv[2]), shards = atoi(argv[3]);
  if (getenv("HRK_SLACKIN")) slackIn = atoi(getenv("HRK_SLACKIN"));
  char path[512];
  snprintf(path, sizeof(path), "%s.json", argv[1]);
  js = fopen(path, "w");
  guard_init();
  levels_init();
  rin = region_make("in", 1 << 21);
  rout = region_make("out", 1 << 21);
  pack_add(&pk, (const uint8_t *)"HRK!", 4);
  static char line[1 << 22];
  static res_t cs[64], ds[64];
  long lineNo = -1;
  bool history = getenv("HRK_HISTORY") != NULL;
  int turn = 0;
  while (fgets(line, sizeof(line), stdin))
  {
    lineNo++;
    if (lineNo % shards != shard)
      continue;
    if (hangs >= 3) // the verdict is clear; do not spend the time on more of them
      break;
    line[strcspn(line, "\n")] = 0;
    char kind = line[0];
    char *id = strtok(line + 1, " ");
    char *names = strtok(NULL, " ");
    char *allowed = strchr(id, ':');
    if (allowed)
      *allowed++ = 0;
    if (kind == 'N') // the bound for a size given as high and low half
    {
      uint32_t hi = (uint32_t)strtoul(strtok(NULL, " "), NULL, 10), sz = hi << 16 | (uint32_t)strtoul(strtok(NULL, " "), NULL, 10);
      int ci = codec_by_name(names);
      if (ci < 0) return 3;
      volatile uint32_t bd = 0;
      calls++;
      if (!GUARDED(CPUSEC, bd = codecs[ci].bounds(sz))) bd = 0;
      fprintf(js, "{\"k\":\"N\",\"id\":\"%s\",\"c\":\"%s\",\"n\":[%u,%u],\"bd\":[%u,%u]}\n", id, codecs[ci].name, sz >> 16, sz & 0xffff, bd >> 16, bd & 0xffff);
      continue;
    }
    uint32_t outSize = 0;
    if (kind == 'D')
      outSize = (uint32_t)strtoul(strtok(NULL, " "), NULL, 10);
    char *plan = strtok(NULL, "");
    if (!plan) plan = (char *)"";
    size_t n;
    uint8_t *input = plan_build(plan, &n);
    size_t ioff = pack_add(&pk, input, n);
    char *sp;
    for (char *nm = strtok_r(names, ",", &sp); nm; nm = strtok_r(NULL, ",", &sp))
    {
      int ci = codec_by_name(nm);
      if (ci < 0) { fprintf(stderr, "unknown codec %s\n", nm); return 3; }
      const codec_t_ *c = &codecs[ci];
      if (kind == 'E')
      {
        uint32_t bd = c->bounds((uint32_t)n);
        int cn = 0;
        for (int lv = 0; lv < LV_COUNT; lv++)
        {
          if (!level_available(lv))
            continue;
          set_level(lv);
          for (int v = 0; v < V_COUNT; v++)
          {
            res_t r;
            const uint8_t *o;
            call(c->comp, false, input, (uint32_t)n, (uint32_t)n, bd, 0, v, c->unit, &r, &o);
            size_t len = r.ret <= bd ? r.ret : bd;
            cn = add_res(cs, cn, &r, o, r.fault[0] ? 0 : len, NULL, 0, 0, lv, v);
          }
        }
        if (history)
          remember(id, c, false, ioff, (uint32_t)n, bd, cs, cn, turn++);
        fprintf(js, "{\"k\":\"E\",\"id\":\"%s\",\"c\":\"%s\",\"n\":%zu,\"i\":%zu,\"bd\":%u,", id, c->name, n, ioff, bd);
        if (allowed)
          fprintf(js, "\"x\":%s,", allowed);
        if (!strcmp(c->name, "rle8m_any"))
          fprintf(js, "\"sec\":%u,", param_sections);
        fputs("\"cs\":[", js);
        for (int i = 0; i < cn; i++)
        {
          if (i) fputc(',', js);
          jres(&cs[i]);
          fputs(",\"d\":[", js);
          bool seen = false;
          char qtext[40] = "";
          for (int j = 0; j < i; j++)
            if (cs[j].off == cs[i].off && cs[j].ret == cs[i].ret)
              seen = true;
          if (cs[i].ret && cs[i].ret <= bd && !seen)
          {
            uint8_t *copy = malloc(cs[i].ret);
            memcpy(copy, pk.p + cs[i].off, cs[i].ret);
            size_query(c, copy, cs[i].ret, qtext);
            int dn = decode_all(c, copy, cs[i].ret, (uint32_t)n, input, n, ioff, ds);
            free(copy);
            if (history)
              remember(id, c, true, cs[i].off, cs[i].ret, (uint32_t)n, ds, dn, turn++);
            for (int j = 0; j < dn; j++)
            {
              if (j) fputc(',', js);
              jres(&ds[j]);
              fputc('}', js);
            }
          }
          fprintf(js, "]%s}", qtext);
        }
        fputs("]}\n", js);
      }
      else if (kind == 'D')
      {
        int dn = decode_all(c, input, (uint32_t)n, outSize, NULL, 0, 0, ds);
        if (history)
          remember(id, c, true, ioff, (uint32_t)n, outSize, ds, dn, turn++);
        fprintf(js, "{\"k\":\"D\",\"id\":\"%s\",\"c\":\"%s\",\"n\":%u,\"sn\":%zu,\"s\":%zu,\"d\":[", id, c->name, outSize, n, ioff);
        for (int j = 0; j < dn; j++)
        {
          if (j) fputc(',', js);
          jres(&ds[j]);
          fputc('}', js);
        }
        fputs("]}\n", js);
      }
    }
    fflush(js);
    free(input);
  }
  again();
  fclose(js);
  snprintf(path, sizeof(path), "%s.pack", argv[1]);
  FILE *f = fopen(path, "wb");
  fwrite(pk.p, 1, pk.n, f);
  fclose(f);
  fprintf(stderr, "calls %ld\n", calls);
  return 0;
}
