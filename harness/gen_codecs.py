#!/usr/bin/env python3
# Writes codecs.c: the public codec API, by name. Names only - no knowledge of the implementation.
out = []
def add(name, comp, dec, bounds, unit):
    out.append('  { "%s", %s, %s, %s, %d },' % (name, comp, dec, bounds, unit))
G = "rle_compress_bounds"
def std(n, unit): add(n, n + "_compress", n + "_decompress", G, unit)
add("rle8_multi", "rle8_multi_compress", "rle8_decompress", G, 1)
add("rle8_single", "rle8_single_compress", "rle8_decompress", G, 1)
add("rle8_packed_multi", "rle8_packed_multi_compress", "rle8_packed_decompress", G, 1)
add("rle8_packed_single", "rle8_packed_single_compress", "rle8_packed_decompress", G, 1)
for n in ["rle8_multi_short", "rle8_single_short", "rle8_1symlut_short", "rle8_3symlut", "rle8_3symlut_short", "rle8_7symlut", "rle8_7symlut_short"]:
    std(n, 1)
for b in [16, 24, 32, 48, 64]:
    u = b // 8
    for a in ["sym", "byte"]:
        std("rle%d_%s" % (b, a), u)
        std("rle%d_%s_packed" % (b, a), u)
        std("rle%d_%s_short" % (b, a), u)
        std("rle%d_1symlut_%s_short" % (b, a), u)
        for l in [3, 7]:
            std("rle%d_%dsymlut_%s" % (b, l, a), u)
            std("rle%d_%dsymlut_%s_short" % (b, l, a), u)
    for l in [1, 3, 7]:
        n = "rle%d_%dsymlut_byte_short" % (b, l)
        add(n + "_greedy", n + "_compress_greedy", n + "_decompress", G, u)
for n in ["rle128_sym", "rle128_sym_packed", "rle128_byte", "rle128_byte_packed"]:
    std(n, 16)
add("rle8_sh", "rle8_sh_compress", "rle8_sh_decompress", "rle8_sh_bounds", 1)
add("rle8_mmtf128", "rle8_mmtf128_compress", "rle8_mmtf128_decompress", "rle8_mmtf128_compress_bounds", 1)
for s, d in [("", ""), ("_short", "_short")]:
    n = "rle8_low_entropy" + s
    add(n, n + "_compress", n + "_decompress", n + "_compress_bounds", 1)
    add(n + "_max", n + "_compress_only_max_frequency", n + "_decompress", n + "_compress_bounds", 1)
for n in ["mmtf128", "mmtf256"]:
    add(n, n + "_encode", n + "_decode", "mmtf_bounds", 1)
for n in ["bitmmtf8", "bitmmtf16"]:
    add(n, n + "_encode", n + "_decode", "bitmmtf_bounds", 1)
for k in [1, 2, 3, 8, 40]:
    add("rle8m_%d" % k, "rle8m_%d_c" % k, "rle8m_decompress", "rle8m_%d_b" % k, 1)
add("rle8_low_entropy_info", "le_info_c", "le_info_d", "rle8_low_entropy_compress_bounds", 1)
add("rle8_low_entropy_short_info", "les_info_c", "les_info_d", "rle8_low_entropy_short_compress_bounds", 1)
# codecs with a parameter (see codec_by_name), and further compositions of the building blocks
add("rle8_low_entropy_max_info", "lem_info_c", "le_info_d", "rle8_low_entropy_compress_bounds", 1)
add("rle8_low_entropy_short_all_info", "lesa_info_c", "les_info_d", "table_b", 1)
add("rle8_low_entropy_table", "le_table_c", "rle8_low_entropy_decompress", "table_b", 1)
add("rle8_low_entropy_table_info", "le_table_c", "le_info_d", "table_b", 1)
add("rle8_low_entropy_short_table", "les_table_c", "rle8_low_entropy_short_decompress", "table_b", 1)
add("rle8_low_entropy_short_table_info", "les_table_c", "les_info_d", "table_b", 1)
add("rle8m_any", "rle8m_any_c", "rle8m_decompress", "rle8m_any_b", 1)
print('#include "hrk.h"')
for k in [1, 2, 3, 8, 40]:
    print("static uint32_t rle8m_%d_b(const uint32_t n) { return rle8m_compress_bounds(%d, n); }" % (k, k))
    print("static uint32_t rle8m_%d_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(%d, i, n, o, m); }" % (k, k))
print("""uint32_t param_sections = 5;
rle8_low_entropy_compress_info_t param_table;
static uint32_t rle8m_any_b(const uint32_t n) { return rle8m_compress_bounds(param_sections, n); }
static uint32_t rle8m_any_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(param_sections, i, n, o, m); }
// an arbitrary table can take two bytes per byte
// the table of a stream: flags, number of symbols (0: 255), symbols
static uint32_t table_size(const uint8_t *i, const uint32_t n) { const uint32_t t = n > 40 ? 33 + (i[40] ? i[40] : 255) : n; return t < n - 8 ? t : n - 8; }
static uint32_t table_b(const uint32_t n) { return 2 * n + 8 + 289; }
static bool give_table(const uint8_t *i, const uint32_t n, rle8_low_entropy_compress_info_t *ci) { *ci = param_table; return i && n; }""")
for p, s, gi in [("le", "", "rle8_low_entropy_get_compress_info"), ("lem", "", "rle8_low_entropy_get_compress_info_only_max_frequency"), ("les", "_short", "rle8_low_entropy_get_compress_info_only_max_frequency"),
                 ("lesa", "_short", "rle8_low_entropy_get_compress_info"), ("le_table", "", "give_table"), ("les_table", "_short", "give_table")]:
    print("""// the low entropy codec put together from its building blocks, with the same header
static uint32_t %(p)s_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !%(gi)s(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy%(s)s_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}""" % dict(p=p if "table" in p else p + "_info", s=s, gi=gi))
for p, s in [("le", ""), ("les", "_short")]:
    print("""static uint32_t %(p)s_info_d(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_decompress_info_t di;
  uint32_t sz = i ? rle8_low_entropy_decompressed_size(i, n) : 0;
  if (!i || !o || !sz || sz > m) return 0;
  uint32_t cs;
  memcpy(&cs, i, 4);
  if (cs > n) return 0;
  uint32_t a = rle8_low_entropy_read_decompress_info(i + 8, table_size(i, n), &di);
  return rle8_low_entropy%(s)s_decompress_with_info(i + 8 + a, i + cs, &di, o, sz);
}""" % dict(p=p, s=s))
print("const codec_t_ codecs[] = {")
print("\n".join(out))
print("};\nconst int codecN = sizeof(codecs) / sizeof(codecs[0]);")
