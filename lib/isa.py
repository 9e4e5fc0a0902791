"""Which instruction-set extension each instruction of the library needs (from objdump's disassembly)."""
import re, subprocess

CLASSES = ["base", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f", "avx512vl", "avx512bw", "avx512dq", "avx512cd",
           "avx512other", "bmi1", "bmi2", "lzcnt", "popcnt", "fma", "f16c", "movbe", "aes", "pclmul", "sha", "adx", "other", "cpuid", "xgetbv"]

SSE3 = {"lddqu", "addsubps", "addsubpd", "haddps", "haddpd", "hsubps", "hsubpd", "movddup", "movshdup", "movsldup", "monitor", "mwait"}
SSSE3 = {"pshufb", "palignr", "pabsb", "pabsw", "pabsd", "psignb", "psignw", "psignd", "phaddw", "phaddd", "phaddsw", "phsubw",
         "phsubd", "phsubsw", "pmaddubsw", "pmulhrsw"}
SSE41 = {"pblendvb", "pblendw", "blendvps", "blendvpd", "blendps", "blendpd", "pextrb", "pextrd", "pextrq", "pinsrb", "pinsrd", "pinsrq",
         "ptest", "pminsb", "pminuw", "pminud", "pminsd", "pmaxsb", "pmaxuw", "pmaxud", "pmaxsd", "pmulld", "pmuldq", "pcmpeqq",
         "packusdw", "movntdqa", "roundps", "roundpd", "roundss", "roundsd", "dpps", "dppd", "mpsadbw", "phminposuw", "extractps", "insertps"}
SSE42 = {"pcmpestri", "pcmpestrm", "pcmpistri", "pcmpistrm", "pcmpgtq", "crc32", "crc32b", "crc32w", "crc32l", "crc32q"}
BMI1 = {"andn", "bextr", "blsi", "blsr", "blsmsk"}
BMI2 = {"bzhi", "mulx", "pdep", "pext", "rorx", "sarx", "shlx", "shrx"}
# 256 bit instructions that AVX (1) has; every other ymm instruction is AVX2
AVX1_YMM = re.compile(r"^v(mov(aps|apd|ups|upd|dqa|dqu|ntps|ntpd|ntdq|mskps|mskpd|shdup|sldup|ddup)|lddqu|zeroupper|zeroall|"
                      r"(add|sub|mul|div|min|max|and|andn|or|xor|cmp\w*|sqrt|rcp|rsqrt|hadd|hsub|addsub|blend|blendv|shuf|unpckl|unpckh|round|dp|test|maskmov|permil)p[sd]|"
                      r"cvt\w+|ptest|perm2f128|insertf128|extractf128|broadcastf128)$")
BROADCAST_MEM = re.compile(r"^vbroadcasts[sd]$")
BW = re.compile(r"^(v(movdqu(8|16)|p(add|sub)(s|us)?[bw]|pabs[bw]|pack\w+|pavg[bw]|palignr|pblendm[bw]|pbroadcast[bw]|pcmp(eq|gt)[bw]|pcmpu?[bw]|"
                r"pmadd(wd|ubsw)|p(max|min)[su][bw]|pmov(m2[bw]|[bw]2m|s?wb|uswb|sxbw|zxbw)|pmul(h(rs|u)?w|lw)|psadbw|pshufb|pshuf[hl]w|ps(ll|rl|ra)v?w|ps(ll|rl)dq|"
                r"ptestn?m[bw]|punpck[hl](bw|wd)|dbpsadbw|perm(i2|t2)?w)|k(mov|or|and|andn|xor|xnor|not|add|shiftl|shiftr|ortest|test|unpck)(d|q|wd|dq))$")
DQ = re.compile(r"^(v(and|andn|or|xor)p[sd]|v(broadcast|extract|insert)[fi](64x2|32x8)|vbroadcast[fi]32x2|vcvt\w*qq\w*|vfpclass\w+|vpmov[dq]2m|vpmovm2[dq]|vpmullq|vrange\w+|vreduce\w+|"
                r"k(mov|or|and|andn|xor|xnor|not|add|shiftl|shiftr|ortest|test)b|k(add|test)w)$")
CD = re.compile(r"^v(pconflict|plzcnt|pbroadcastm)\w+$")
KF = re.compile(r"^k(mov|or|and|andn|xor|xnor|not|shiftl|shiftr|ortest)w$|^kunpckbw$")


def classify(raw, mn, ops):
    """Set of classes one instruction needs."""
    if mn == "cpuid":
        return {"cpuid"}
    if mn == "xgetbv":
        return {"xgetbv"}
    if re.match(r"^k(mov|or|and|andn|xor|xnor|not|add|shiftl|shiftr|ortest|test|unpck)\w+$", mn) and "%k" in ops:
        return {"avx512bw"} if BW.match(mn) else {"avx512dq"} if DQ.match(mn) else {"avx512f"}
    if mn in BMI1:
        return {"bmi1"}
    if mn in BMI2:
        return {"bmi2"}
    if mn in ("lzcnt", "popcnt", "movbe", "adcx", "adox"):
        return {{"adcx": "adx", "adox": "adx"}.get(mn, mn)}
    if mn.startswith("v"):
        evex = raw and raw[0] == "62"
        if re.match(r"^vfn?m(add|sub)", mn):
            return {"fma"} if not evex else {"avx512f"}
        if mn.startswith("vcvtph2ps") or mn.startswith("vcvtps2ph"):
            return {"f16c"} if not evex else {"avx512f"}
        if mn.startswith("vaes"):
            return {"aes", "avx"} if "%xmm" in ops and "%ymm" not in ops and not evex else {"other"}
        if mn.startswith("vpclmul"):
            return {"pclmul", "avx"} if "%ymm" not in ops and "%zmm" not in ops else {"other"}
        if evex:
            s = set()
            if BW.match(mn):
                s.add("avx512bw")
            elif DQ.match(mn):
                s.add("avx512dq")
            elif CD.match(mn):
                s.add("avx512cd")
            elif re.match(r"^v(pdp|perm(i2|t2)?b|pmadd52|popcnt|pshld|pshrd|pcompress[bw]|pexpand[bw]|pshufbitqmb|gf2p8|p4dp|4f)", mn):
                s.add("avx512other")
            else:
                s.add("avx512f")
            scalar = re.search(r"(s[sd]|sh)$", mn) and not mn.startswith("vbroadcast") or mn in ("vmovd", "vmovq", "vmovss", "vmovsd")
            if "%zmm" not in ops and not scalar:
                s.add("avx512vl")
            return s
        if "%ymm" in ops:
            if AVX1_YMM.match(mn):
                return {"avx"}
            if BROADCAST_MEM.match(mn):
                return {"avx"} if "(" in ops else {"avx2"}
            return {"avx2"}
        if re.match(r"^vpbroadcast[bwdq]$|^vps[rl]lv[dq]$|^vpsravd$|^vpblendd$|^vpmaskmov[dq]$|^v(p|)gather", mn) or (mn == "vbroadcastss" and "(" not in ops):
            return {"avx2"}
        if mn == "vmovntdqa":
            return {"avx"}
        return {"avx"}
    if mn in SSE3:
        return {"sse3"}
    if mn in SSSE3:
        return {"ssse3"}
    if mn in SSE41 or re.match(r"^pmov[sz]x", mn):
        return {"sse4.1"}
    if mn == "pextrw" and "(" in ops.split(",")[-1] + ("(" if re.search(r"\)$", ops) else ""):
        return {"sse4.1"}
    if mn in SSE42:
        return {"sse4.2"}
    if mn.startswith("aes"):
        return {"aes"}
    if mn.startswith("pclmul"):
        return {"pclmul"}
    if mn.startswith("sha") and "%xmm" in ops:
        return {"sha"}
    return {"base"}


LINE = re.compile(r"^\s*([0-9a-f]+):\t([0-9a-f ]+)\t(.*)$")
PREFIXES = {"data16", "cs", "notrack", "rep", "repz", "repnz", "lock", "ds", "es", "fs", "gs", "bnd", "rex.W", "addr32"}


def disassemble(exe, section):
    """[(address, classes, text)] of every instruction of a section."""
    out = subprocess.run(["objdump", "-d", "-j", section, exe], stdout=subprocess.PIPE, text=True, errors="replace").stdout
    res = []
    for l in out.splitlines():
        m = LINE.match(l)
        if not m:
            continue
        words = m.group(3).split()
        if not words:
            continue
        while len(words) > 1 and words[0] in PREFIXES:
            words = words[1:]
        ops = " ".join(words[1:]).split("#")[0].strip()
        res.append((int(m.group(1), 16), classify(m.group(2).split(), words[0], ops), m.group(3)))
    return res


def write_table(exe, section, path):
    """Instructions beyond the base set: lines "<address hex> <bit mask of classes>"; returns how many of each class there are."""
    n = {}
    total = 0
    with open(path, "w") as f:
        for a, cl, _ in disassemble(exe, section):
            total += 1
            if cl == {"base"}:
                continue
            f.write("%x %x\n" % (a, sum(1 << CLASSES.index(c) for c in cl)))
            for c in cl:
                n[c] = n.get(c, 0) + 1
    n["all"] = total
    return n
