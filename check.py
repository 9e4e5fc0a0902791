#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of properties.jsonl on /repo's working tree.

Every check follows the same path: the library is rebuilt from /repo; TLC explores the specification (model checking of
the abstract machines; enumeration or simulation of the generator specifications); what it produces is run on the real
code by the harness; TLC checks the recorded traces against the specification (HrleTrace and friends)."""
import json, os, re, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import hrk
from hrk import *


def tools(ctx):
    """TLC's pack override now; library and harness in the background while TLC generates (ready(ctx) waits)."""
    build_java(ctx)
    ctx.building = ThreadPoolExecutor(1).submit(build, ctx)


def build(ctx):
    ctx.objs = build_lib(ctx)
    ctx.rt = build_tool(ctx, "rt", ["rt.c", "common.c", "codecs.c"], ctx.objs)
    for name, src in getattr(ctx, "extra", {}).items():
        setattr(ctx, name, build_tool(ctx, name, src, ctx.objs))
    ctx.say("built")


def ready(ctx):
    ctx.building.result()


def machine(ctx):
    """Writer and reader of every format in lockstep, exhaustively on small inputs (HrleModel)."""
    self_check(ctx)
    model_check(ctx, "HrleModel", workers=8)
    if not ctx.quick:
        model_check(ctx, "HrleModel", cfg="HrleModelDeep.cfg", workers=8, timeout=7200, heap="16g")


def encoder_jobs(ctx, gen="all", parts="etgmo", sims=None):
    """Inputs: every format boundary (HrleGrid), and random behaviours of HrlePlan."""
    env = {} if gen == "all" else {"HRK_GEN": gen}
    grid = gen_grid(ctx, parts, env=env, deep=False) if parts else []
    ctx.cov["enumerated_inputs"] = sum(map(len, grid))
    sim = gen_sim(ctx, "HrlePlan", sims or (8000 if ctx.quick else 120000), env=env)
    jobs = lines(grid, "G")
    more = lines(sim, "E")
    ctx.cov["simulated_inputs"] = len(more)
    ctx.say("generated %d + %d inputs" % (len(jobs), len(more)))
    return renumber(jobs + more)


def stream_jobs(ctx, parts="dks", sims=None, gen="all"):
    env = {} if gen == "all" else {"HRK_GEN": gen}
    grid = gen_grid(ctx, parts, env=env) if parts else []
    sim = gen_sim(ctx, "HrleGen", sims or (8000 if ctx.quick else 160000), env=env, seed=3)
    jobs = lines(grid, "G")
    more = lines(sim, "D")
    ctx.cov["enumerated_streams"] = len(jobs)
    ctx.cov["simulated_streams"] = len(more)
    ctx.say("generated %d + %d streams" % (len(jobs), len(more)))
    return renumber(jobs + more)


def renumber(jobs):
    out = []
    for n, j in enumerate(jobs):
        k, i, rest = j.split(" ", 2)
        out.append("%s %d%s %s" % (k, n, i[i.index(":"):] if ":" in i else "", rest))
    return out


def batches(jobs, size=60000):
    for i in range(0, len(jobs), size):
        yield jobs[i:i + size]


def run_all(ctx, jobs, tag, **kw):
    ready(ctx)
    for n, b in enumerate(batches(jobs)):
        conform(ctx, ctx.rt, deal(b), "%s%d" % (tag, n), **kw)
        if ctx.violations:
            return


RT_RULE = "HrleTrace accepts every recorded event of the real code for this property"


def c01(ctx):
    ctx.extra = BIG
    tools(ctx)
    run_all(ctx, encoder_jobs(ctx), "e")
    large(ctx)
    return RT_RULE


def large(ctx, part="z", keep=lambda j: True):
    """Inputs (part z) and streams (part y) beyond 2^24 bytes (thorough: up to the supported 2^30)."""
    what = {"z": "large_inputs", "y": "large_streams"}[part]
    jobs = [j for j in lines(gen_grid(ctx, part, deep=False), "G") if keep(j)]
    ctx.cov[what] = len(jobs)
    ready(ctx)
    conform(ctx, ctx.big, deal(jobs), part)
    if not ctx.quick:
        jobs = [j for j in lines(gen_grid(ctx, part, deep=True), "G") if keep(j)]
        ctx.cov[what] += len(jobs)
        conform(ctx, ctx.big, deal(jobs, 4), part + "h")


def is_run(job):
    return " R" in job


def short_of_256m(job):
    return " 268435523 " not in job


BIG = {"big": ["big.c", "common.c", "codecs.c"]}


def c04(ctx):
    ctx.extra = BIG
    tools(ctx)
    jobs = encoder_jobs(ctx)
    sizes = lines(gen_grid(ctx, "n"), "G")
    ctx.cov["bounds_asked_for"] = len(sizes)
    run_all(ctx, renumber(jobs + sizes), "e")
    # the most expensive patterns, long enough for the cost to add up; few at a time, for their memory
    costly = lines(gen_grid(ctx, "x", deep=not ctx.quick), "G")
    # and random pieces, over and over
    period = lines(gen_sim(ctx, "HrlePlan", 2400 if ctx.quick else 60000, env={"HRK_MODE": "period"}, seed=7), "E")
    ctx.cov["long_periodic_inputs"] = len(period)
    costly = renumber(costly + period)
    ctx.cov["long_costly_inputs"] = len(costly)
    for n, b in enumerate(batches(costly, 600 if ctx.quick else 150)):
        conform(ctx, ctx.rt, deal(b), "x%d" % n)
    large(ctx, keep=short_of_256m if ctx.quick else lambda j: True)
    return RT_RULE


def c07(ctx):
    ctx.extra = BIG
    tools(ctx)
    run_all(ctx, encoder_jobs(ctx), "e")
    large(ctx, keep=short_of_256m if ctx.quick else lambda j: True)
    return RT_RULE


def c02(ctx):
    tools(ctx)
    machine(ctx)
    run_all(ctx, encoder_jobs(ctx), "e")
    return RT_RULE


def c03(ctx):
    ctx.extra = BIG
    tools(ctx)
    machine(ctx)
    run_all(ctx, stream_jobs(ctx), "d")
    large(ctx, "y")
    return RT_RULE


def c05(ctx):
    tools(ctx)
    run_all(ctx, encoder_jobs(ctx) + stream_jobs(ctx), "e")
    return RT_RULE


def c08(ctx):
    tools(ctx)
    # HRK_HISTORY: every call is made again after all the others, in the opposite order
    run_all(ctx, encoder_jobs(ctx) + stream_jobs(ctx), "e", env={"HRK_HISTORY": "1"})
    return RT_RULE


def c06(ctx):
    ctx.extra = {"calls": ["calls.c", "common.c", "codecs.c"]}
    tools(ctx)
    jobs = []
    for l in gen_grid(ctx, "-", module="HrleCalls", deep=not ctx.quick):
        for j in l:
            k, rest = j.split(" ", 1)
            jobs.append("%s %d %s" % (k, len(jobs), rest))
    ctx.cov["enumerated_calls"] = len(jobs)
    ctx.say("%d calls" % len(jobs))
    ready(ctx)
    conform(ctx, ctx.calls, deal(jobs), "k", module="HrleRefuse")
    return "HrleRefuse accepts every recorded call: refused where required, nothing touched outside the buffers"


def isa_tool(ctx):
    import isa
    exe = build_tool(ctx, "isa", ["isa.c", "common.c", "codecs.c"], own_sections(ctx, ctx.objs) + [os.path.join(HARNESS, "sections.S")])
    n = isa.write_table(exe, "hrktext", ctx.path("isa.table"))
    ctx.rt_args = {"isa": [ctx.path("isa.table"), section_address(exe, "hrktext")]}
    ctx.cov["library_instructions"] = n["all"]
    ctx.cov["instructions_by_extension"] = {k: v for k, v in sorted(n.items()) if k != "all"}
    return exe


def c09(ctx):
    tools(ctx)
    model_check(ctx, "HrleIsaModel", workers=8)
    machines = sum(gen_grid(ctx, "-", shards=1, env={"HRK_MODE": "machines"}, module="HrleIsaGen"), [])
    cuts = sum(gen_grid(ctx, "-", shards=1, env={"HRK_MODE": "cuts"}, module="HrleIsaGen"), [])
    ctx.cov["machines"] = len(machines)
    # on every machine: every function, one input with literals and runs of all symbol sizes
    plans = [" s3 U70 R300:41 U33 R200:4142 U9 R99:414243 U5 R160:41424344454647484142434445464701 U21"] + ([] if ctx.quick else [" R5:41", " s8 A3:900", " s5 N5000"])
    jobs = ["V %s all%s" % (m, p) for m in machines for p in plans]
    # at every restriction of the real machine: the enumerated and simulated inputs
    inputs = encoder_jobs(ctx, parts="t" if ctx.quick else "etgmo", sims=1500 if ctx.quick else 40000)
    if ctx.quick:
        inputs = inputs[::4]
    jobs += ["V %s %s" % (c, l.split(" ", 2)[2]) for c in cuts for l in inputs]
    jobs = ["V %d %s" % (n, j[2:]) for n, j in enumerate(jobs)]
    ctx.say("%d machines, %d restrictions, %d jobs" % (len(machines), len(cuts), len(jobs)))
    ready(ctx)
    exe = isa_tool(ctx)
    # neighbouring jobs share their machine
    k = (len(jobs) + 8 * JOBS - 1) // (8 * JOBS)
    chunks = [jobs[i:i + k] for i in range(0, len(jobs), k)]
    conform(ctx, exe, [sum(chunks[i::JOBS], []) for i in range(JOBS)], "v", module="HrleIsaTrace")
    ctx.assume += ["an extension is reported only together with the ones it builds on (AVX-512F, AVX2, AVX, SSE4.2, SSE4.1, SSSE3, SSE3)",
                   "objdump's disassembly of the built library; the C library is not part of the property"]
    return "on every machine of HrleIsa, no call of the real code reaches an instruction outside Allowed(machine, restriction)"


def c10(ctx):
    tools(ctx)
    model_check(ctx, "HrleOnce", workers=8)
    traces = sum(gen_grid(ctx, "-", env={"HRK_MODE": "traces"}, module="HrleThreads"), [])
    ready(ctx)
    exe = build_tool(ctx, "sched", ["sched.c", "common.c", "codecs.c"], own_sections(ctx, ctx.objs) + [os.path.join(HARNESS, "sections.S")])
    # what each call alone does to the library's writable data
    jobs = ["A %d %s" % (n, j[2:]) for n, j in enumerate(traces)]
    runs = run_rt(ctx, exe, deal(jobs), "alone")
    with open(ctx.path("alone.json"), "w") as f:
        for r in runs:
            if not r["ok"]:
                raise Broken("recording calls failed: " + r["out"][-500:])
            f.write(open(r["events"]).read())
    rec = [json.loads(l) for l in open(ctx.path("alone.json"))]
    ctx.cov["calls_recorded_alone"] = len(rec)
    ctx.cov["of_these_write_shared_state"] = sum(1 for r in rec if r["wr"])
    ctx.cov["of_these_after_first_use"] = sum(1 for r in rec if r["wr"] and r["st"] != "fresh")
    ctx.say("recorded %d calls, %d write shared state (%d after first use)" % (len(rec), ctx.cov["of_these_write_shared_state"], ctx.cov["of_these_after_first_use"]))
    sch = sum(gen_grid(ctx, "-", env={"HRK_MODE": "schedules", "HRK_EVENTS": ctx.path("alone.json")}, module="HrleThreads", deep=not ctx.quick), [])
    jobs = ["S %d %s" % (n, j[2:]) for n, j in enumerate(sch)]
    ctx.say("%d schedules" % len(jobs))
    if ctx.quick and len(jobs) > 60000:
        jobs = jobs[::len(jobs) // 60000 + 1]
    conform(ctx, exe, deal(jobs), "s", module="HrleThreadsTrace")
    ctx.assume += ["calls share no state but the library's writable data sections (the C library is trusted)",
                   "an access is atomic and takes effect in program order (x86-TSO: stores of one thread are seen in order)"]
    return "every call gives under every schedule of HrleThreads what it gives alone (HrleThreadsTrace)"


def c11(ctx):
    ctx.extra = BIG
    tools(ctx)
    jobs = lines(gen_sim(ctx, "HrlePlan", 12000 if ctx.quick else 200000, env={"HRK_MODE": "runs"}), "X")
    run_all(ctx, jobs, "x")
    large(ctx, keep=is_run)
    return RT_RULE


def c12(ctx):
    tools(ctx)
    run_all(ctx, encoder_jobs(ctx, "transforms", "tgmo", 6000 if ctx.quick else 100000), "e")
    return RT_RULE


def c13(ctx):
    tools(ctx)
    # inputs for every building block and sectioned codec; where blocks make up one call, both run on the same input
    jobs = [re.sub(r"^(E \S+ rle8_low_entropy(_max)?)( |$)", r"\1,rle8_low_entropy\2_info\3", j) for j in encoder_jobs(ctx, "blocks", "tgo", 2500 if ctx.quick else 100000)]
    # any table, any number of sections
    tables = lines(gen_sim(ctx, "HrlePlan", 4000 if ctx.quick else 120000, env={"HRK_MODE": "tables"}, seed=5), "E")
    ctx.cov["inputs_with_given_tables_or_sections"] = len(tables)
    streams = stream_jobs(ctx, None, 3000 if ctx.quick else 60000, "blocks")
    run_all(ctx, renumber(jobs + tables + streams), "e")
    return RT_RULE


def cli(ctx):
    """The command line tool from /repo's sources, with the recording shim between it and the library."""
    fn = re.findall(r"X\((\w+)\)", open(os.path.join(HARNESS, "tool_funcs.h")).read().split("\\\n", 1)[1])
    objs = compile_files(ctx, ["main.c", "rle_fuzz.c"], "toolobjs")
    ctx.tool = build_tool(ctx, "tool", ["toolshim.c"], objs + ctx.objs, flags=["-Wl,--wrap=" + f for f in fn])
    plan = build_tool(ctx, "plan", ["plan.c", "common.c", "codecs.c"], ctx.objs)
    with open(ctx.path("labels"), "w") as f:
        f.write("\n".join(re.findall(r'label \|-> "([^"]*)"', open(os.path.join(SPEC, "HrleToolCodecs.tla")).read())) + "\n")
    exe = os.path.join(HARNESS, "toolrun.py")
    ctx.rt_args = {"toolrun.py": [ctx.tool, ctx.work, plan]}
    # what the machine offers: the level of a run without restrictions
    r = run_rt(ctx, exe, [["T 0 s1_U9 - - --test --runs 1 --min-time 0"]], "probe")[0]
    if not r["ok"]:
        raise Broken("the tool cannot be run: " + r["out"][-500:])
    with open(ctx.path("machine.json"), "w") as f:
        json.dump(json.loads(open(r["events"]).readline())["level"], f)
    os.environ["HRK_MACHINE"] = ctx.path("machine.json")
    return exe


def numbered(lists):
    return ["T %d %s" % (n, j) for n, j in enumerate(sum(lists, []))]


def c14(ctx):
    tools(ctx)
    jobs = gen_grid(ctx, "-", module="HrleToolGen", deep=not ctx.quick)
    ctx.cov["enumerated_option_lists"] = sum(map(len, jobs))
    env = {"HRK_MODE": "combine", "HRK_DEEP": "0", "HRK_SHARD": "0", "HRK_SHARDS": "1"}
    sim = gen_sim(ctx, "HrleToolGen", 4000 if ctx.quick else 100000, env=env)
    ctx.cov["simulated_option_lists"] = sum(map(len, sim))
    ready(ctx)
    exe = cli(ctx)
    conform(ctx, exe, deal(numbered(jobs + sim)), "t", module="HrleToolTrace")
    return "HrleToolTrace accepts every run of the tool: codecs, functions, level, runs and refusals as HrleTool has them"


def c15(ctx):
    tools(ctx)
    model_check(ctx, "HrleToolRun")
    jobs = gen_grid(ctx, "-", module="HrleToolGen", env={"HRK_MODE": "faults"}, deep=not ctx.quick)
    ctx.cov["enumerated_runs"] = sum(map(len, jobs))
    ready(ctx)
    exe = cli(ctx)
    conform(ctx, exe, deal(numbered(jobs)), "t", module="HrleToolTrace")
    return "HrleToolTrace accepts the verdict of every run of the tool, with and without failing codecs"


def c16(ctx):
    tools(ctx)
    model_check(ctx, "HrleAnalyzeModel", cfg=None if ctx.quick else "HrleAnalyzeModelDeep.cfg")
    jobs = gen_grid(ctx, "-", module="HrleAnalyzeGen", deep=not ctx.quick)
    ctx.cov["enumerated_files"] = sum(map(len, jobs))
    sim = gen_sim(ctx, "HrleAnalyzeGen", 1200 if ctx.quick else 30000, env={"HRK_MODE": "mix", "HRK_DEEP": "0", "HRK_SHARD": "0", "HRK_SHARDS": "1"})
    ctx.cov["simulated_files"] = sum(map(len, sim))
    ready(ctx)
    objs = compile_files(ctx, ["main.c", "rle_fuzz.c"], "toolobjs")
    tool = build_tool(ctx, "analyze", ["edge.c"], objs + ctx.objs, flags=["-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"])
    plan = build_tool(ctx, "plan", ["plan.c", "common.c", "codecs.c"], ctx.objs)
    ctx.rt_args = {"analyzerun.py": [tool, ctx.work, plan]}
    conform(ctx, os.path.join(HARNESS, "analyzerun.py"), deal(["A %d %s" % (n, j) for n, j in enumerate(sum(jobs + sim, []))]), "a", module="HrleAnalyzeTrace")
    return "HrleAnalyzeTrace accepts every figure of every report"


def c17(ctx):
    tools(ctx)
    model_check(ctx, "HrleFuzzModel")
    ready(ctx)
    fn = re.findall(r"X\((\w+)\)", open(os.path.join(HARNESS, "tool_funcs.h")).read().split("\\\n", 1)[1])
    objs = compile_files(ctx, ["main.c", "rle_fuzz.c"], "toolobjs", flags=["-Dmain=tool_main"])
    exe = build_tool(ctx, "fuzzrun", ["fuzzrun.c"], objs + ctx.objs, flags=["-Wl,--wrap=" + f for f in fn])
    jobs = ["F 0 1 0", "C 1 6 %d" % (25000 if ctx.quick else 400000), "F 2 2 %d" % (4000 if ctx.quick else 300000), "F 3 3 %d" % (4000 if ctx.quick else 140000)]
    conform(ctx, exe, [[j] for j in jobs], "f", module="HrleFuzzTrace")
    return "HrleFuzzTrace accepts every input the fuzzer hands out, in order"


CHECKS = {
    "C17": (c17, "exploration"),
    "C16": (c16, "exploration"),
    "C14": (c14, "exploration"), "C15": (c15, "exploration"),
    "C01": (c01, "exploration"), "C02": (c02, "exploration"), "C03": (c03, "exploration"), "C04": (c04, "exploration"),
    "C05": (c05, "exploration"), "C06": (c06, "exploration"), "C07": (c07, "exploration"), "C08": (c08, "exploration"), "C09": (c09, "exploration"), "C10": (c10, "exploration"), "C11": (c11, "exploration"),
    "C12": (c12, "exploration"), "C13": (c13, "exploration"),
}


def self_check(ctx):
    """The definitions of HrlePack against their fast implementation, on a small pack with all kinds of hits and misses."""
    d = bytes([0, 0, 0, 1, 255, 1, 255, 1, 255, 7, 200, 7, 7, 200, 7, 7, 0, 1, 2, 128])
    mtf = []
    for lanes in (1, 2):
        ls = [list(range(256)) for _ in range(lanes)]
        for i, v in enumerate(d[:10]):
            mtf.append(ls[i % lanes].index(v))
            ls[i % lanes].remove(v)
            ls[i % lanes].insert(0, v)
    xor = [v if i < 2 else v ^ d[i - 2] for i, v in enumerate(d)]
    p = bytes(list(d) + mtf + xor + [7, 200, 7, 0])
    with open(ctx.path("self.pack"), "wb") as f:
        f.write(p)
    model_check(ctx, "HrleSelf", env={"HRK_PACK": ctx.path("self.pack")}, workers=2, heap="1g")


def setup():
    """Nothing is kept between runs; this only shows that the tools the checks need are there."""
    ctx = Ctx("setup", "quick", "other")
    build_java(ctx)
    self_check(ctx)
    for c in (["gcc", "--version"], ["objdump", "--version"], ["java", "-version"]):
        if run(c).returncode:
            return 2
    print("ready")
    return 0


def main():
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    fn, level = CHECKS[prop]
    ctx = Ctx(prop, tier, level)
    try:
        rule = fn(ctx)
    except Broken as e:
        print("BROKEN:", e, flush=True)
        if ctx.violations:
            return finish(ctx, "stopped early")
        return 2
    return finish(ctx, rule)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
