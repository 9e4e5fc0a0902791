#!/usr/bin/env python3
"""analyzerun.py <prefix> <tool> <scratch> <plan>: has the tool analyze one file per job and records the report.
Jobs on stdin:  A <id> <only> <plan>      only: 0, or a width (then widths 1, 2 and that one are judged)
Reports go to <prefix>.json, the files to <prefix>.pack; prints "calls <n>"."""
import json, os, re, subprocess, sys
pre, tool, scratch, plan = sys.argv[1:5]
wd = pre + ".d"
os.makedirs(wd, exist_ok=True)
ARGS = ["--analyze", "--runs", "0", "--min-time", "0", "--single", "--sh"]


def num(s, unit):
    """printed percentage -> integer in 1/unit per cent; None if there is none (0 of 0)"""
    try:
        return round(float(s) * unit)
    except ValueError:
        return None


def cells(values):
    """cell number -> value, those that are not 0"""
    out = []
    for k, v in values:
        if v is None:
            continue
        if v != 0:
            out.append([k, v])
    return out


def number(s):
    try:
        return min(int(s), 1 << 30)
    except ValueError:
        return -1


def section(text):
    """one width"""
    w = int(re.match(r" *(\d+)", text).group(1))
    r = [{}, {}]
    heads = re.findall(r"^(Non-Aligned|Aligned): +Repeating: *(\d+) \( *(\d+) Bytes, *(\S+) %, *(\d+) Bytes Distinct\)", text, re.M)
    for k, h in enumerate(heads):
        r[k].update(count=number(h[1]), len=number(h[2]), share=num(h[3], 100) or 0, empty=number(h[4]))
    rows = re.findall(r"^ *(\d+) Bit: \| *(\d+) \| *(\d+) \|\| *(\d+) Bytes: \| *(\d+) \| *(\d+) \|\| *(\d+) Bit: \| *(\d+) \| *(\d+) \|\| *(\d+) Symbols: \| *(\d+) \| *(\d+)", text, re.M)
    for k in (0, 1):
        r[k]["runBits"] = cells((int(x[6 * k]), number(x[6 * k + 1])) for x in rows)
        r[k]["gapBits"] = cells((int(x[6 * k]), number(x[6 * k + 2])) for x in rows)
        r[k]["runLen"] = cells((int(x[6 * k + 3]), number(x[6 * k + 4])) for x in rows)
        r[k]["gapLen"] = cells((int(x[6 * k + 3]), number(x[6 * k + 5])) for x in rows)
    refs = re.findall(r"^ *(\d+) \| *(\d+) \( *(\S+) %\) \| *(\d+) \( *(\S+) %\)", text, re.M)
    for k in (0, 1):
        r[k]["ref"] = cells((int(x[0]), number(x[1 + 2 * k])) for x in refs)
        r[k]["refShare"] = cells((int(x[0]), num(x[2 + 2 * k], 1000)) for x in refs)
    part = re.split(r"^-{20,}$", text, flags=re.M)
    # after the rows of the references: gap bits against run bits, both next to each other
    t = [[], []]
    for j, line in enumerate(part[3].split("\n")[1:17]):
        c = line.split("|")
        for k in (0, 1):
            t[k] += [(j * 16 + m, num(v, 10)) for m, v in enumerate(c[1 + k].split())]
    for k in (0, 1):
        r[k]["bits"] = cells(t[k])
        r[k]["diff"] = cells((j * 32 + m, num(v, 10)) for j, line in enumerate(part[4 + k].split("\n")[1:33]) for m, v in enumerate(line.split("|")[1].split()))
    return {"w": w, "all": r[0], "aligned": r[1], "rows": len(rows)}


def histogram(text):
    out = []
    for line in text.split("\n"):
        m = re.match(r"([0-9A-F]) \| (.*)", line)
        if m and "." in m.group(2) or m and "nan" in m.group(2):
            lo = int(m.group(1), 16)
            out += [(k << 4 | lo, num(v, 100)) for k, v in enumerate(m.group(2).split("|")[:16])]
    return cells(out)


at = calls = 0
with open(pre + ".json", "w") as out, open(pre + ".pack", "wb") as pack:
    for line in sys.stdin:
        t = line.rstrip("\n").split(" ", 3)
        if t[0] != "A":
            continue
        path = os.path.join(wd, "f")
        data = subprocess.run([plan, t[3]], stdout=subprocess.PIPE, check=True).stdout
        if not data:
            continue
        with open(path, "wb") as f:
            f.write(data)
        p = subprocess.run([tool, path] + ARGS, cwd=wd, env={"PATH": "/usr/bin:/bin"}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        text = p.stdout.decode("latin-1").replace("\r", "\n")
        ev = {"id": t[1], "k": "A", "at": at, "n": len(data), "only": int(t[2]), "exit": p.returncode if p.returncode >= 0 else 256 - p.returncode, "total": -1, "w": [], "hist": [], "runHist": []}
        m = re.search(r"Analysis Complete\. +(\d+) Bytes Total", text)
        if m:
            ev["total"] = int(m.group(1))
            text, _, last = text[m.end():].partition("\nHistogram:")
            secs = re.split(r"^RLE Length ", text, flags=re.M)[1:]
            try:
                ev["w"] = [section(s) for s in secs]
                ev["hist"] = histogram(last.split("\n\n")[0])
                ev["runHist"] = histogram(secs[0].split("RLE-Symbol Histogram:")[1])
            except (IndexError, KeyError, AttributeError, ValueError):
                ev["w"] = []
        out.write(json.dumps(ev) + "\n")
        pack.write(data)
        at += len(data)
        calls += 1
print("calls", calls)
