"""Shared machinery of the checks: building from /repo, running TLC, running the harness, judging traces."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HRK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
JOBS = int(os.environ.get("HRK_JOBS", "8"))
# the product's own release settings (premake5.lua / build.sh); what it does not build is left out
CFLAGS = "-m64 -ffast-math -mxsave -DSSE2 -O3 -g -fomit-frame-pointer -fno-stack-protector -DNDEBUG -w".split()
NOT_LIB = {"main.c", "rle_fuzz.c", "rle8_ocl.c"}


class Broken(Exception):
    """The machinery could not give an answer."""


class Ctx:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="hrk_%s_" % prop, dir=os.environ.get("HRK_TMP", "/tmp"))
        if not os.environ.get("HRK_KEEP"):
            atexit.register(shutil.rmtree, self.work, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "calls": 0}
        self.assume = []
        self.violations = []
        self.pool = ThreadPoolExecutor(JOBS)
        self.objs = None

    def path(self, *a):
        return os.path.join(self.work, *a)

    def say(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    @property
    def quick(self):
        return self.tier == "quick"


def run(cmd, timeout=800, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        raise Broken("timed out: %s" % " ".join(map(str, cmd))[:200])


# ---- building ------------------------------------------------------------------------------------
def build_lib(ctx, flags=(), tag="lib", cc="gcc"):
    src = os.path.join(REPO, "src")
    files = [f for f in sorted(os.listdir(src)) if f.endswith(".c") and f not in NOT_LIB]
    # the largest first
    files.sort(key=lambda f: (f != "rleX_Xsl_short.c", f != "rleX_Xsl.c", -os.path.getsize(os.path.join(src, f))))
    return compile_files(ctx, files, tag, flags, cc)


def compile_files(ctx, files, tag, flags=(), cc="gcc"):
    src = os.path.join(REPO, "src")
    d = ctx.path(tag)
    os.makedirs(d, exist_ok=True)

    def one(f):
        o = os.path.join(d, f[:-2] + ".o")
        r = run([cc, *CFLAGS, *flags, "-c", os.path.join(src, f), "-o", o])
        if r.returncode:
            raise Broken("cannot compile %s:\n%s" % (f, r.stdout[-2000:]))
        return o
    return list(ctx.pool.map(one, files))


def build_tool(ctx, name, sources, objs, flags=(), cc="gcc", out=None):
    exe = ctx.path(out or name)
    r = run([cc, "-O2", "-g", "-w", "-mxsave", "-I" + os.path.join(REPO, "src"), "-I" + HARNESS, *flags, "-o", exe,
             *[os.path.join(HARNESS, s) for s in sources], *objs, "-lm", "-lpthread"])
    if r.returncode:
        raise Broken("cannot build %s:\n%s" % (name, r.stdout[-2000:]))
    return exe


def own_sections(ctx, objs):
    """The library's objects with code and writable data in sections of their own (hrktext, hrkdata, hrkbss)."""
    d = ctx.path("sect")
    os.makedirs(d, exist_ok=True)

    def one(o):
        n = os.path.join(d, os.path.basename(o))
        names = set(re.findall(r"^\s*\d+ (\S+)", run(["objdump", "-h", o]).stdout, re.M))
        args = []
        for s in names:
            for pre, to, fl in ((".text", "hrktext", "alloc,load,readonly,code,contents"), (".data", "hrkdata", "alloc,load,data,contents"), (".bss", "hrkbss", "alloc")):
                if (s == pre or s.startswith(pre + ".")) and not s.startswith(".data.rel.ro"):
                    args += ["--rename-section", "%s=%s,%s" % (s, to, fl)]
        r = run(["objcopy", *args, o, n])
        if r.returncode:
            raise Broken("objcopy: " + r.stdout[-500:])
        # pages of their own, so that nothing else shares them
        r = run(["objcopy", "--set-section-alignment", "hrkdata=4096", "--set-section-alignment", "hrkbss=4096", n])
        if r.returncode:
            raise Broken("objcopy: " + r.stdout[-500:])
        return n
    return list(ctx.pool.map(one, objs))


def section_address(exe, name):
    m = re.search(r"^\s*\d+ %s\s+\S+\s+([0-9a-f]+)" % re.escape(name), run(["objdump", "-h", exe]).stdout, re.M)
    if not m:
        raise Broken("no section %s" % name)
    return m.group(1)


def build_java(ctx):
    d = ctx.path("classes")
    os.makedirs(d, exist_ok=True)
    r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d, os.path.join(SPEC, "HrlePack.java")])
    if r.returncode:
        raise Broken("cannot compile the pack override:\n" + r.stdout[-2000:])
    ctx.classes = d


# ---- TLC ----------------------------------------------------------------------------------------
def tlc(ctx, module, args=(), env=None, cfg=None, heap="3g", timeout=800, tag=None, workers=1):
    """Runs TLC on a module of /verif/spec and returns its output."""
    md = tempfile.mkdtemp(prefix="md_", dir=ctx.work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-cp", "%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (ctx.classes, TLA, TLA), "tlc2.TLC",
           "-config", cfg or module + ".cfg", "-workers", str(workers), "-nowarning", "-noTE", "-metadir", md, *args, module + ".tla"]
    r = run(cmd, timeout=timeout, cwd=SPEC, env=e)
    shutil.rmtree(md, True)
    if tag:
        with open(ctx.path(tag + ".log"), "w") as f:
            f.write(r.stdout)
    return r.stdout


def count_states(ctx, out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        ctx.cov["states"] += int(m[-1][1])
        ctx.cov["transitions"] += int(m[-1][0])
        return int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        ctx.cov["states"] += int(m[-1])
        ctx.cov["transitions"] += int(m[-1])
        return int(m[-1])
    return 0


def model_check(ctx, module, cfg=None, env=None, timeout=800, heap="6g", workers=4):
    """Model checks a module; anything but a clean pass means the specification itself is broken."""
    out = tlc(ctx, module, env=env, cfg=cfg, timeout=timeout, heap=heap, workers=workers, tag="mc_" + (cfg or module))
    n = count_states(ctx, out)
    if "Model checking completed. No error has been found." not in out:
        raise Broken("model %s does not hold:\n%s" % (cfg or module, out[-3000:]))
    ctx.say("model %s: %d distinct states" % (cfg or module, n))
    return n


def jobs_of(out):
    for l in out.splitlines():
        if l.startswith('"JOB '):
            yield l[5:-1]


# ---- job generation --------------------------------------------------------------------------------
def gen_sim(ctx, module, num, env=None, shards=None, seed=0):
    """Behaviours of a generator specification, one list per shard (TLC simulation)."""
    shards = shards or JOBS

    def one(s):
        out = tlc(ctx, module, ["-simulate", "num=%d" % max(1, num // shards), "-depth", "600", "-seed", str(ctx.seed * 1000 + seed * 100 + s)], env=env, tag="gen_%s_%d_%d" % (module, seed, s))
        if "Error:" in out or "Exception" in out:
            raise Broken("generator %s failed:\n%s" % (module, out[-2000:]))
        count_states(ctx, out)
        return list(jobs_of(out))
    return list(ctx.pool.map(one, range(shards)))


def gen_grid(ctx, parts, shards=None, env=None, deep=False, module="HrleGrid"):
    """The initial states of an enumerating specification, one list per shard."""
    shards = shards or JOBS

    def one(s):
        e = {"HRK_PART": parts, "HRK_SHARD": str(s), "HRK_SHARDS": str(shards), "HRK_DEEP": "1" if deep else "0"}
        e.update(env or {})
        out = tlc(ctx, module, env=e, tag="%s_%s_%d" % (module, parts, s))
        if "Model checking completed. No error has been found." not in out:
            raise Broken(module + " failed:\n" + out[-2000:])
        count_states(ctx, out)
        return list(jobs_of(out))
    return list(ctx.pool.map(one, range(shards)))


def lines(lists, kind, codec=None):
    """Generator output -> harness jobs: one list of lines; `kind` E, D, X (E with an allowed size) or G (says itself)."""
    out = []
    for l in lists:
        for j in l:
            n = len(out)
            if kind == "E":
                c, p = (j.split(" ", 1) + [""])[:2]
                out.append("E %d %s %s" % (n, c, p))
            elif kind == "X":
                c, x, p = (j.split(" ", 2) + [""])[:3]
                out.append("E %d:%s %s %s" % (n, x, c, p))
            elif kind == "D":
                c, m, p = j.split(" ", 2)
                out.append("D %d %s %s %s" % (n, c, m, p))
            else:
                k, c, m, p = (j.split(" ", 3) + [""])[:4]
                out.append("E %d %s %s" % (n, c, p) if k == "E" else "%s %d %s %s %s" % (k, n, c, m, p))
    return out


def deal(jobs, shards=None):
    """Spreads jobs evenly."""
    shards = shards or JOBS
    return [jobs[i::shards] for i in range(shards)]


# ---- running jobs on the real code ----------------------------------------------------------------
def run_rt(ctx, exe, shards, tag, env=None):
    """shards: lists of harness job lines.  Returns [(events file, pack file, {id: line})]."""
    def one(s):
        lines = shards[s]
        pre = ctx.path("%s_%d" % (tag, s))
        with open(pre + ".jobs", "w") as f:
            f.write("\n".join(lines) + ("\n" if lines else ""))
        e = dict(os.environ)
        e.update(env or {})
        with open(pre + ".jobs") as i:
            r = run([exe, pre, *getattr(ctx, "rt_args", {}).get(os.path.basename(exe), ["0", "1"])], stdin=i, env=e, timeout=700)
        m = re.search(r"calls (\d+)", r.stdout)
        if m:
            ctx.cov["calls"] += int(m.group(1))
        done = r.returncode == 0 and m
        byid = {}
        for l in lines:
            byid[l.split()[1].split(":")[0]] = l
        return dict(events=pre + ".json", pack=pre + ".pack", jobs=byid, ok=bool(done), out=r.stdout, rc=r.returncode, lines=lines)
    return list(ctx.pool.map(one, range(len(shards))))


REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)"\s*>>', re.S)
CON = re.compile(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', re.S)


COUNTED = {"HrleFuzzTrace": "fuzzer_inputs", "HrleAnalyzeTrace": "reports", "HrleToolTrace": "codec_calls_of_the_tool", "HrleThreadsTrace": "schedules", "HrleIsaTrace": "calls_on_emulated_machines", "HrleRefuse": "calls_that_must_be_refused"}


def judge(ctx, runs, prop=None, module="HrleTrace", env=None):
    """Has TLC check every recorded event against the specification.  Returns rejections [(run, id, codec, why)]."""
    prop = prop or ctx.prop
    rej = []

    def one(i):
        r = runs[i]
        e = {"HRK_PROP": prop, "HRK_EVENTS": r["events"], "HRK_PACK": r["pack"]}
        e.update(env or {})
        n = sum(1 for _ in open(r["events"]))
        if n == 0:
            return [], 0, 0
        out = tlc(ctx, module, env=e, heap="3g", tag="judge_%s_%s" % (prop, os.path.basename(r["events"])))
        c = CON.search(out)
        if not c or int(c.group(1)) != n:
            raise Broken("the trace was not consumed (%s, %d events):\n%s" % (r["events"], n, out[-2500:]))
        count_states(ctx, out)
        return [(r, m[1], m[2], m[3]) for m in REJ.findall(out)], n, int(c.group(4))
    ev = tk = 0
    for a, n, t in ctx.pool.map(one, range(len(runs))):
        rej += a
        ev += n
        tk += t
    ctx.cov["traces_validated_against_impl"] += ev
    what = COUNTED.get(module, "tokens_walked")
    ctx.cov[what] = ctx.cov.get(what, 0) + tk
    ctx.say("judged %d events (%d %s), %d rejections" % (ev, tk, what, len(rej)))
    return rej


def conform(ctx, exe, shards, tag, prop=None, env=None, module="HrleTrace"):
    """Run jobs, judge the traces, confirm rejections by running those jobs again."""
    runs = run_rt(ctx, exe, shards, tag, env)
    for r in runs:
        if not r["ok"]:
            crash(ctx, exe, r, tag, env)
    runs = [r for r in runs if r["ok"]]
    rej = judge(ctx, runs, prop, module)
    if not ctx.cov["samples"]:
        for s in shards[:2]:
            ctx.cov["samples"] += [l[:300] for l in s[:1] + s[len(s) // 2:len(s) // 2 + 1]]
    if rej:
        first = {}
        for r, i, c, w in rej:
            first.setdefault(i, (r["jobs"][i], c, w))
        pick = list(first.items())[:24]
        again = run_rt(ctx, exe, [[v[0] for _, v in pick]], tag + "_again", env)
        rep = set()
        if again[0]["ok"]:
            rep = {i for _, i, _, _ in judge(ctx, again, prop, module)}
        else:
            rep = {i for i, _ in pick}
        for i, (line, c, w) in pick:
            if i in rep:
                violation(ctx, "%s: %s" % (c, w), {"tool": os.path.basename(exe), "job": line, "codec": c, "why": w, "module": module, "env": env or {}})
        if not any(i in rep for i, _ in pick):
            # perhaps only after the calls before it: the whole list again
            for r in {id(r): r for r, _, _, _ in rej}.values():
                b = run_rt(ctx, exe, [r["lines"]], tag + "_again", env)
                if b[0]["ok"]:
                    for _, i, c, w in judge(ctx, b, prop, module)[:3]:
                        if i in first:
                            rep.add(i)
                            violation(ctx, "%s: %s (after other calls)" % (c, w), {"tool": os.path.basename(exe), "jobs": r["lines"], "job": first[i][0], "codec": c, "why": w, "module": module, "env": env or {}})
                if rep:
                    break
        if not rep:
            ctx.say("rejections did not repeat and are not reported:", [(i, v[1], v[2]) for i, v in pick][:5])
            ctx.cov["unrepeated_rejections"] = ctx.cov.get("unrepeated_rejections", 0) + len(rej)


def crash(ctx, exe, r, tag, env):
    """The harness itself died: find the job, and report it if it does so again."""
    lines = r["lines"]
    done = sum(1 for _ in open(r["events"])) if os.path.exists(r["events"]) else 0
    lo, hi = 0, len(lines)
    # events are flushed per job; the job after the last complete one is the culprit or close to it
    cand = lines[max(0, done - 2):done + 3] or lines[:5]
    for l in cand:
        a = run_rt(ctx, exe, [[l]], tag + "_crash", env)[0]
        if not a["ok"]:
            violation(ctx, "the process did not survive the calls", {"tool": os.path.basename(exe), "job": l, "why": "process ended with %d" % a["rc"], "env": env or {}})
            return
    b = run_rt(ctx, exe, [lines], tag + "_crash", env)[0]
    if not b["ok"]:
        violation(ctx, "the process did not survive the calls", {"tool": os.path.basename(exe), "jobs": lines[:done + 3], "why": "process ended with %d" % b["rc"], "env": env or {}})
    else:
        raise Broken("harness ended with %s but not again: %s" % (r["rc"], r["out"][-500:]))


# ---- results ---------------------------------------------------------------------------------------
def known(ctx):
    """Listed findings of this property (see known-findings.json); 'fixed' entries suppress nothing."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == ctx.prop]


def violation(ctx, what, data):
    for k in known(ctx):
        if k["match"] == what:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]), flush=True)
            return
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    n = len(ctx.violations)
    p = os.path.join(d, "%s-%d.json" % (ctx.prop, n))
    data = dict(data)
    data.update(property=ctx.prop, what=what)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    ctx.violations.append(what)
    if n < 10:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p), flush=True)
        print("   ", what, "|", str(data.get("job", ""))[:200], flush=True)


def finish(ctx, rule):
    cov = dict(ctx.cov)
    cov["rule"] = rule
    cov["samples"] = cov["samples"][:8]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assume, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.say("%s %s: %d violations, %d states, %d traces, %d calls" % (ctx.prop, ctx.tier, len(ctx.violations), cov["states"], cov["traces_validated_against_impl"], cov["calls"]))
    return 1 if ctx.violations else 0
