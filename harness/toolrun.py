#!/usr/bin/env python3
"""toolrun.py <prefix> <tool> <scratch>: runs the command line tool once per job and records what it did.
Jobs on stdin:  T <id> <file> <fault or -> <stop or -> args...   file: a plan for the harness ("s1_U30_R9:41"), "missing", "empty"
Events go to <prefix>.json (one per job); prints "calls <n>"."""
import json, os, re, struct, subprocess, sys
pre, tool, scratch, plan = sys.argv[1:5]
here = os.path.dirname(os.path.abspath(__file__))
FUNCS = re.findall(r"X\((\w+)\)", open(os.path.join(here, "tool_funcs.h")).read().split("\\\n", 1)[1])
LABELS = [l.strip() for l in open(os.path.join(scratch, "labels"))]
BITS = ["sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f"]
wd = pre + ".d"
os.makedirs(wd, exist_ok=True)
files = {}


def content(f):
    """path and size of the file a job names"""
    if f not in files:
        p = os.path.join(wd, "f%d" % len(files))
        n = 0
        if f != "missing":
            if f == "empty":
                open(p, "wb").close()
            else:
                with open(p, "wb") as o:
                    subprocess.run([plan, f.replace("_", " ")], stdout=o, check=True)
            n = os.path.getsize(p)
        files[f] = (p, n)
    return files[f]


calls = 0
with open(pre + ".json", "w") as out:
    for line in sys.stdin:
        t = line.rstrip("\n").split(" ")
        if t[0] != "T":
            continue
        i, f, fault, stop, args = t[1], t[2], t[3], t[4], [a.replace("~", " ") for a in t[5:]]
        path, n = content(f)
        log = os.path.join(wd, "log")
        env = {"HRK_LOG": log, "PATH": "/usr/bin:/bin"}
        if fault != "-":
            env["HRK_FAULT"] = fault
        if stop != "-":
            env["HRK_STOP"] = stop
        if os.path.exists(log):
            os.unlink(log)
        p = subprocess.run([tool, path] + args, cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        d = open(log, "rb").read()
        nc, fired, after, level = struct.unpack_from("<4I", d)
        used = []
        for k, name in enumerate(FUNCS):
            c, lin, lret, order = struct.unpack_from("<4I", d, 16 + 16 * k)
            if c:
                used.append({"f": name, "n": c, "i": min(lin, 1 << 30), "r": min(lret, 1 << 30)})
        calls += nc
        text = p.stdout.decode("latin-1")
        # the report: one line per codec, overwritten as it grows
        said = {}
        for part in re.split(r"[\r\n]", text):
            m = re.match(r"(.{30})\|(.*)", part)
            if m and m.group(1).rstrip() in LABELS:
                said.setdefault(m.group(1).rstrip(), []).append(m.group(2))
        rep = []
        for l, parts in said.items():
            m = re.match(r" *(\d+)\.(\d\d) % ", parts[-1]) or next((m for m in (re.match(r" *(\d+)\.(\d\d) % ", q) for q in reversed(parts)) if m), None)
            rep.append({"l": l, "r": int(m.group(1)) * 100 + int(m.group(2)) if m else -1, "bad": 1 if any("FAILED" in q or "NOT SUPPORTED" in q for q in parts) else 0})
        fa = fault.split(":") if fault != "-" else ["", "", "0", "0", "0"]
        ev = {"id": i, "k": "T", "n": n, "file": "missing" if f == "missing" else "empty" if n == 0 else "ok", "args": args, "exit": p.returncode if p.returncode >= 0 else 256 - p.returncode,
              "calls": nc, "fired": fired, "after": after, "level": [b for k, b in enumerate(BITS) if level >> k & 1], "used": used, "rep": rep,
              "ff": fa[0], "fk": fa[1], "fa": int(fa[2]), "fb": int(fa[3]), "invalid": 1 if "Validation Failed" in text or "incorrect size" in text else 0}
        out.write(json.dumps(ev) + "\n")
open(pre + ".pack", "wb").close()
print("calls", calls)
