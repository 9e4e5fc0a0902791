#!/usr/bin/env python3
"""Writes HrleToolCodecs.tla and ../harness/tool_funcs.h: the codecs the command line tool knows, from their naming scheme."""
import os
D = os.path.dirname(os.path.abspath(__file__))
rows = []


def add(label, comp, dec, kind, bits, align="-", single="multi", packed=False, short=False, greedy=False, lut=0):
    rows.append(dict(label=label, comp=comp, dec=dec, kind=kind, bits=bits, align=align, single=single, packed=packed, short=short, greedy=greedy, lut=lut))


def pair(label, name, *a, **k):
    add(label, name + "_compress", name + "_decompress", *a, **k)


add("8 Bit", "rle8_multi_compress", "rle8_decompress", "extreme", 8)
pair("8 Bit Short", "rle8_multi_short", "extreme", 8, short=True)
add("8 Bit Packed", "rle8_packed_multi_compress", "rle8_packed_decompress", "extreme", 8, packed=True, lut=1)
pair("8 Bit 1LUT Short", "rle8_1symlut_short", "extreme", 8, short=True, lut=1)
for n in (3, 7):
    pair("8 Bit %dLUT" % n, "rle8_%dsymlut" % n, "extreme", 8, lut=n)
    pair("8 Bit %dLUT Short" % n, "rle8_%dsymlut_short" % n, "extreme", 8, lut=n, short=True)
add("8 Bit Single", "rle8_single_compress", "rle8_decompress", "extreme", 8, single="single")
pair("8 Bit Single Short", "rle8_single_short", "extreme", 8, single="single", short=True)
add("8 Bit Single Packed", "rle8_packed_single_compress", "rle8_packed_decompress", "extreme", 8, single="single", packed=True, lut=1)
for b in (16, 24, 32, 48, 64, 128):
    for al, word in (("sym", "Symbol"), ("byte", "Byte")):
        z = dict(align=al)
        pair("%d Bit (%s)" % (b, word), "rle%d_%s" % (b, al), "extreme", b, **z)
        pair("%d Bit Packed (%s)" % (b, word), "rle%d_%s_packed" % (b, al), "extreme", b, packed=True, lut=1, **z)
        if b == 128:
            continue
        pair("%d Bit Short (%s)" % (b, word), "rle%d_%s_short" % (b, al), "extreme", b, short=True, **z)
        for n in (1, 3, 7):
            if n > 1:
                pair("%d Bit %dLUT (%s)" % (b, n, word), "rle%d_%dsymlut_%s" % (b, n, al), "extreme", b, lut=n, **z)
            s = "rle%d_%dsymlut_%s_short" % (b, n, al)
            pair("%d Bit %dLUT Short (%s)" % (b, n, word), s, "extreme", b, lut=n, short=True, **z)
            if al == "byte":
                add("%d Bit %dLUT Short Grdy (%s)" % (b, n, word), s + "_compress_greedy", s + "_decompress", "extreme", b, lut=n, short=True, greedy=True, **z)
pair("8 Bit RLE + Huffman-esque", "rle8_sh", "sh", 8, single="-")
pair("8 Bit MMTF 128", "rle8_mmtf128", "rlemmtf", 128, single="-")
for s, word in (("", ""), ("_short", " Short")):
    n = "rle8_low_entropy" + s
    pair("Low Entropy" + word, n, "le", 8, short=bool(s))
    add("Low Entropy%s Single" % word, n + "_compress_only_max_frequency", n + "_decompress", "le", 8, short=bool(s), single="single")
for b in (128, 256):
    add("Multi MTF %d Bit (Transform)" % b, "mmtf%d_encode" % b, "mmtf%d_decode" % b, "mmtf", b, single="-")
for b in (8, 16):
    add("Bit MMTF %d Bit (Transform)" % b, "bitmmtf%d_encode" % b, "bitmmtf%d_decode" % b, "mmtf", b, single="?")
add("memcpy", "", "", "memcpy", 0, single="?")

t = lambda v: "TRUE" if v is True else "FALSE" if v is False else str(v) if isinstance(v, int) else '"%s"' % v
with open(os.path.join(D, "HrleToolCodecs.tla"), "w") as f:
    f.write("--------------------------- MODULE HrleToolCodecs ---------------------------\n"
            "(* Generated by gen_tool.py.  label: name in the report; comp, dec: the pair of functions; kind: family;\n"
            "   bits: symbol (or transform) size; align: granularity of runs, where there is one; single: one symbol or\n"
            "   several, \"-\" where that makes no sense, \"?\" where either answer would do. *)\n"
            "ToolCodecs == <<\n")
    f.write(",\n".join("  [" + ", ".join("%s |-> %s" % (k, t(v)) for k, v in r.items()) + "]" for r in rows))
    f.write("\n>>\n=============================================================================\n")
fn = []
for r in rows:
    for x in (r["comp"], r["dec"]):
        if x and x not in fn:
            fn.append(x)
with open(os.path.join(D, "..", "harness", "tool_funcs.h"), "w") as f:
    f.write("// generated by spec/gen_tool.py: the functions the command line tool runs\n#define TOOL_FUNCS(X) \\\n" + " \\\n".join("  X(%s)" % x for x in fn) + "\n")
