#include "hrk.h"
static uint32_t rle8m_1_b(const uint32_t n) { return rle8m_compress_bounds(1, n); }
static uint32_t rle8m_1_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(1, i, n, o, m); }
static uint32_t rle8m_2_b(const uint32_t n) { return rle8m_compress_bounds(2, n); }
static uint32_t rle8m_2_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(2, i, n, o, m); }
static uint32_t rle8m_3_b(const uint32_t n) { return rle8m_compress_bounds(3, n); }
static uint32_t rle8m_3_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(3, i, n, o, m); }
static uint32_t rle8m_8_b(const uint32_t n) { return rle8m_compress_bounds(8, n); }
static uint32_t rle8m_8_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(8, i, n, o, m); }
static uint32_t rle8m_40_b(const uint32_t n) { return rle8m_compress_bounds(40, n); }
static uint32_t rle8m_40_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(40, i, n, o, m); }
uint32_t param_sections = 5;
rle8_low_entropy_compress_info_t param_table;
static uint32_t rle8m_any_b(const uint32_t n) { return rle8m_compress_bounds(param_sections, n); }
static uint32_t rle8m_any_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return rle8m_compress(param_sections, i, n, o, m); }
// an arbitrary table can take two bytes per byte
// the table of a stream: flags, number of symbols (0: 255), symbols
static uint32_t table_size(const uint8_t *i, const uint32_t n) { const uint32_t t = n > 40 ? 33 + (i[40] ? i[40] : 255) : n; return t < n - 8 ? t : n - 8; }
static uint32_t table_b(const uint32_t n) { return 2 * n + 8 + 289; }
static bool give_table(const uint8_t *i, const uint32_t n, rle8_low_entropy_compress_info_t *ci) { *ci = param_table; return i && n; }
// the low entropy codec put together from its building blocks, with the same header
static uint32_t le_info_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !rle8_low_entropy_get_compress_info(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
// the low entropy codec put together from its building blocks, with the same header
static uint32_t lem_info_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !rle8_low_entropy_get_compress_info_only_max_frequency(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
// the low entropy codec put together from its building blocks, with the same header
static uint32_t les_info_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !rle8_low_entropy_get_compress_info_only_max_frequency(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_short_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
// the low entropy codec put together from its building blocks, with the same header
static uint32_t lesa_info_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !rle8_low_entropy_get_compress_info(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_short_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
// the low entropy codec put together from its building blocks, with the same header
static uint32_t le_table_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !give_table(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
// the low entropy codec put together from its building blocks, with the same header
static uint32_t les_table_c(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_compress_info_t ci;
  if (!i || !o || m < 8 || !give_table(i, n, &ci)) return 0;
  uint32_t a = rle8_low_entropy_write_compress_info(&ci, o + 8, m - 8 < 289 ? m - 8 : 289);
  if (!a) return 0;
  uint32_t b = rle8_low_entropy_short_compress_with_info(i, n, &ci, o + 8 + a, m - 8 - a);
  if (!b) return 0;
  uint32_t h[2] = { 8 + a + b, n };
  memcpy(o, h, 8);
  return h[0];
}
static uint32_t le_info_d(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_decompress_info_t di;
  uint32_t sz = i ? rle8_low_entropy_decompressed_size(i, n) : 0;
  if (!i || !o || !sz || sz > m) return 0;
  uint32_t cs;
  memcpy(&cs, i, 4);
  if (cs > n) return 0;
  uint32_t a = rle8_low_entropy_read_decompress_info(i + 8, table_size(i, n), &di);
  return rle8_low_entropy_decompress_with_info(i + 8 + a, i + cs, &di, o, sz);
}
static uint32_t les_info_d(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m)
{
  rle8_low_entropy_decompress_info_t di;
  uint32_t sz = i ? rle8_low_entropy_decompressed_size(i, n) : 0;
  if (!i || !o || !sz || sz > m) return 0;
  uint32_t cs;
  memcpy(&cs, i, 4);
  if (cs > n) return 0;
  uint32_t a = rle8_low_entropy_read_decompress_info(i + 8, table_size(i, n), &di);
  return rle8_low_entropy_short_decompress_with_info(i + 8 + a, i + cs, &di, o, sz);
}
const codec_t_ codecs[] = {
  { "rle8_multi", rle8_multi_compress, rle8_decompress, rle_compress_bounds, 1 },
  { "rle8_single", rle8_single_compress, rle8_decompress, rle_compress_bounds, 1 },
  { "rle8_packed_multi", rle8_packed_multi_compress, rle8_packed_decompress, rle_compress_bounds, 1 },
  { "rle8_packed_single", rle8_packed_single_compress, rle8_packed_decompress, rle_compress_bounds, 1 },
  { "rle8_multi_short", rle8_multi_short_compress, rle8_multi_short_decompress, rle_compress_bounds, 1 },
  { "rle8_single_short", rle8_single_short_compress, rle8_single_short_decompress, rle_compress_bounds, 1 },
  { "rle8_1symlut_short", rle8_1symlut_short_compress, rle8_1symlut_short_decompress, rle_compress_bounds, 1 },
  { "rle8_3symlut", rle8_3symlut_compress, rle8_3symlut_decompress, rle_compress_bounds, 1 },
  { "rle8_3symlut_short", rle8_3symlut_short_compress, rle8_3symlut_short_decompress, rle_compress_bounds, 1 },
  { "rle8_7symlut", rle8_7symlut_compress, rle8_7symlut_decompress, rle_compress_bounds, 1 },
  { "rle8_7symlut_short", rle8_7symlut_short_compress, rle8_7symlut_short_decompress, rle_compress_bounds, 1 },
  { "rle16_sym", rle16_sym_compress, rle16_sym_decompress, rle_compress_bounds, 2 },
  { "rle16_sym_packed", rle16_sym_packed_compress, rle16_sym_packed_decompress, rle_compress_bounds, 2 },
  { "rle16_sym_short", rle16_sym_short_compress, rle16_sym_short_decompress, rle_compress_bounds, 2 },
  { "rle16_1symlut_sym_short", rle16_1symlut_sym_short_compress, rle16_1symlut_sym_short_decompress, rle_compress_bounds, 2 },
  { "rle16_3symlut_sym", rle16_3symlut_sym_compress, rle16_3symlut_sym_decompress, rle_compress_bounds, 2 },
  { "rle16_3symlut_sym_short", rle16_3symlut_sym_short_compress, rle16_3symlut_sym_short_decompress, rle_compress_bounds, 2 },
  { "rle16_7symlut_sym", rle16_7symlut_sym_compress, rle16_7symlut_sym_decompress, rle_compress_bounds, 2 },
  { "rle16_7symlut_sym_short", rle16_7symlut_sym_short_compress, rle16_7symlut_sym_short_decompress, rle_compress_bounds, 2 },
  { "rle16_byte", rle16_byte_compress, rle16_byte_decompress, rle_compress_bounds, 2 },
  { "rle16_byte_packed", rle16_byte_packed_compress, rle16_byte_packed_decompress, rle_compress_bounds, 2 },
  { "rle16_byte_short", rle16_byte_short_compress, rle16_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_1symlut_byte_short", rle16_1symlut_byte_short_compress, rle16_1symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_3symlut_byte", rle16_3symlut_byte_compress, rle16_3symlut_byte_decompress, rle_compress_bounds, 2 },
  { "rle16_3symlut_byte_short", rle16_3symlut_byte_short_compress, rle16_3symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_7symlut_byte", rle16_7symlut_byte_compress, rle16_7symlut_byte_decompress, rle_compress_bounds, 2 },
  { "rle16_7symlut_byte_short", rle16_7symlut_byte_short_compress, rle16_7symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_1symlut_byte_short_greedy", rle16_1symlut_byte_short_compress_greedy, rle16_1symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_3symlut_byte_short_greedy", rle16_3symlut_byte_short_compress_greedy, rle16_3symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle16_7symlut_byte_short_greedy", rle16_7symlut_byte_short_compress_greedy, rle16_7symlut_byte_short_decompress, rle_compress_bounds, 2 },
  { "rle24_sym", rle24_sym_compress, rle24_sym_decompress, rle_compress_bounds, 3 },
  { "rle24_sym_packed", rle24_sym_packed_compress, rle24_sym_packed_decompress, rle_compress_bounds, 3 },
  { "rle24_sym_short", rle24_sym_short_compress, rle24_sym_short_decompress, rle_compress_bounds, 3 },
  { "rle24_1symlut_sym_short", rle24_1symlut_sym_short_compress, rle24_1symlut_sym_short_decompress, rle_compress_bounds, 3 },
  { "rle24_3symlut_sym", rle24_3symlut_sym_compress, rle24_3symlut_sym_decompress, rle_compress_bounds, 3 },
  { "rle24_3symlut_sym_short", rle24_3symlut_sym_short_compress, rle24_3symlut_sym_short_decompress, rle_compress_bounds, 3 },
  { "rle24_7symlut_sym", rle24_7symlut_sym_compress, rle24_7symlut_sym_decompress, rle_compress_bounds, 3 },
  { "rle24_7symlut_sym_short", rle24_7symlut_sym_short_compress, rle24_7symlut_sym_short_decompress, rle_compress_bounds, 3 },
  { "rle24_byte", rle24_byte_compress, rle24_byte_decompress, rle_compress_bounds, 3 },
  { "rle24_byte_packed", rle24_byte_packed_compress, rle24_byte_packed_decompress, rle_compress_bounds, 3 },
  { "rle24_byte_short", rle24_byte_short_compress, rle24_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_1symlut_byte_short", rle24_1symlut_byte_short_compress, rle24_1symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_3symlut_byte", rle24_3symlut_byte_compress, rle24_3symlut_byte_decompress, rle_compress_bounds, 3 },
  { "rle24_3symlut_byte_short", rle24_3symlut_byte_short_compress, rle24_3symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_7symlut_byte", rle24_7symlut_byte_compress, rle24_7symlut_byte_decompress, rle_compress_bounds, 3 },
  { "rle24_7symlut_byte_short", rle24_7symlut_byte_short_compress, rle24_7symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_1symlut_byte_short_greedy", rle24_1symlut_byte_short_compress_greedy, rle24_1symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_3symlut_byte_short_greedy", rle24_3symlut_byte_short_compress_greedy, rle24_3symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle24_7symlut_byte_short_greedy", rle24_7symlut_byte_short_compress_greedy, rle24_7symlut_byte_short_decompress, rle_compress_bounds, 3 },
  { "rle32_sym", rle32_sym_compress, rle32_sym_decompress, rle_compress_bounds, 4 },
  { "rle32_sym_packed", rle32_sym_packed_compress, rle32_sym_packed_decompress, rle_compress_bounds, 4 },
  { "rle32_sym_short", rle32_sym_short_compress, rle32_sym_short_decompress, rle_compress_bounds, 4 },
  { "rle32_1symlut_sym_short", rle32_1symlut_sym_short_compress, rle32_1symlut_sym_short_decompress, rle_compress_bounds, 4 },
  { "rle32_3symlut_sym", rle32_3symlut_sym_compress, rle32_3symlut_sym_decompress, rle_compress_bounds, 4 },
  { "rle32_3symlut_sym_short", rle32_3symlut_sym_short_compress, rle32_3symlut_sym_short_decompress, rle_compress_bounds, 4 },
  { "rle32_7symlut_sym", rle32_7symlut_sym_compress, rle32_7symlut_sym_decompress, rle_compress_bounds, 4 },
  { "rle32_7symlut_sym_short", rle32_7symlut_sym_short_compress, rle32_7symlut_sym_short_decompress, rle_compress_bounds, 4 },
  { "rle32_byte", rle32_byte_compress, rle32_byte_decompress, rle_compress_bounds, 4 },
  { "rle32_byte_packed", rle32_byte_packed_compress, rle32_byte_packed_decompress, rle_compress_bounds, 4 },
  { "rle32_byte_short", rle32_byte_short_compress, rle32_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_1symlut_byte_short", rle32_1symlut_byte_short_compress, rle32_1symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_3symlut_byte", rle32_3symlut_byte_compress, rle32_3symlut_byte_decompress, rle_compress_bounds, 4 },
  { "rle32_3symlut_byte_short", rle32_3symlut_byte_short_compress, rle32_3symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_7symlut_byte", rle32_7symlut_byte_compress, rle32_7symlut_byte_decompress, rle_compress_bounds, 4 },
  { "rle32_7symlut_byte_short", rle32_7symlut_byte_short_compress, rle32_7symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_1symlut_byte_short_greedy", rle32_1symlut_byte_short_compress_greedy, rle32_1symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_3symlut_byte_short_greedy", rle32_3symlut_byte_short_compress_greedy, rle32_3symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle32_7symlut_byte_short_greedy", rle32_7symlut_byte_short_compress_greedy, rle32_7symlut_byte_short_decompress, rle_compress_bounds, 4 },
  { "rle48_sym", rle48_sym_compress, rle48_sym_decompress, rle_compress_bounds, 6 },
  { "rle48_sym_packed", rle48_sym_packed_compress, rle48_sym_packed_decompress, rle_compress_bounds, 6 },
  { "rle48_sym_short", rle48_sym_short_compress, rle48_sym_short_decompress, rle_compress_bounds, 6 },
  { "rle48_1symlut_sym_short", rle48_1symlut_sym_short_compress, rle48_1symlut_sym_short_decompress, rle_compress_bounds, 6 },
  { "rle48_3symlut_sym", rle48_3symlut_sym_compress, rle48_3symlut_sym_decompress, rle_compress_bounds, 6 },
  { "rle48_3symlut_sym_short", rle48_3symlut_sym_short_compress, rle48_3symlut_sym_short_decompress, rle_compress_bounds, 6 },
  { "rle48_7symlut_sym", rle48_7symlut_sym_compress, rle48_7symlut_sym_decompress, rle_compress_bounds, 6 },
  { "rle48_7symlut_sym_short", rle48_7symlut_sym_short_compress, rle48_7symlut_sym_short_decompress, rle_compress_bounds, 6 },
  { "rle48_byte", rle48_byte_compress, rle48_byte_decompress, rle_compress_bounds, 6 },
  { "rle48_byte_packed", rle48_byte_packed_compress, rle48_byte_packed_decompress, rle_compress_bounds, 6 },
  { "rle48_byte_short", rle48_byte_short_compress, rle48_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_1symlut_byte_short", rle48_1symlut_byte_short_compress, rle48_1symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_3symlut_byte", rle48_3symlut_byte_compress, rle48_3symlut_byte_decompress, rle_compress_bounds, 6 },
  { "rle48_3symlut_byte_short", rle48_3symlut_byte_short_compress, rle48_3symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_7symlut_byte", rle48_7symlut_byte_compress, rle48_7symlut_byte_decompress, rle_compress_bounds, 6 },
  { "rle48_7symlut_byte_short", rle48_7symlut_byte_short_compress, rle48_7symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_1symlut_byte_short_greedy", rle48_1symlut_byte_short_compress_greedy, rle48_1symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_3symlut_byte_short_greedy", rle48_3symlut_byte_short_compress_greedy, rle48_3symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle48_7symlut_byte_short_greedy", rle48_7symlut_byte_short_compress_greedy, rle48_7symlut_byte_short_decompress, rle_compress_bounds, 6 },
  { "rle64_sym", rle64_sym_compress, rle64_sym_decompress, rle_compress_bounds, 8 },
  { "rle64_sym_packed", rle64_sym_packed_compress, rle64_sym_packed_decompress, rle_compress_bounds, 8 },
  { "rle64_sym_short", rle64_sym_short_compress, rle64_sym_short_decompress, rle_compress_bounds, 8 },
  { "rle64_1symlut_sym_short", rle64_1symlut_sym_short_compress, rle64_1symlut_sym_short_decompress, rle_compress_bounds, 8 },
  { "rle64_3symlut_sym", rle64_3symlut_sym_compress, rle64_3symlut_sym_decompress, rle_compress_bounds, 8 },
  { "rle64_3symlut_sym_short", rle64_3symlut_sym_short_compress, rle64_3symlut_sym_short_decompress, rle_compress_bounds, 8 },
  { "rle64_7symlut_sym", rle64_7symlut_sym_compress, rle64_7symlut_sym_decompress, rle_compress_bounds, 8 },
  { "rle64_7symlut_sym_short", rle64_7symlut_sym_short_compress, rle64_7symlut_sym_short_decompress, rle_compress_bounds, 8 },
  { "rle64_byte", rle64_byte_compress, rle64_byte_decompress, rle_compress_bounds, 8 },
  { "rle64_byte_packed", rle64_byte_packed_compress, rle64_byte_packed_decompress, rle_compress_bounds, 8 },
  { "rle64_byte_short", rle64_byte_short_compress, rle64_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_1symlut_byte_short", rle64_1symlut_byte_short_compress, rle64_1symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_3symlut_byte", rle64_3symlut_byte_compress, rle64_3symlut_byte_decompress, rle_compress_bounds, 8 },
  { "rle64_3symlut_byte_short", rle64_3symlut_byte_short_compress, rle64_3symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_7symlut_byte", rle64_7symlut_byte_compress, rle64_7symlut_byte_decompress, rle_compress_bounds, 8 },
  { "rle64_7symlut_byte_short", rle64_7symlut_byte_short_compress, rle64_7symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_1symlut_byte_short_greedy", rle64_1symlut_byte_short_compress_greedy, rle64_1symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_3symlut_byte_short_greedy", rle64_3symlut_byte_short_compress_greedy, rle64_3symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle64_7symlut_byte_short_greedy", rle64_7symlut_byte_short_compress_greedy, rle64_7symlut_byte_short_decompress, rle_compress_bounds, 8 },
  { "rle128_sym", rle128_sym_compress, rle128_sym_decompress, rle_compress_bounds, 16 },
  { "rle128_sym_packed", rle128_sym_packed_compress, rle128_sym_packed_decompress, rle_compress_bounds, 16 },
  { "rle128_byte", rle128_byte_compress, rle128_byte_decompress, rle_compress_bounds, 16 },
  { "rle128_byte_packed", rle128_byte_packed_compress, rle128_byte_packed_decompress, rle_compress_bounds, 16 },
  { "rle8_sh", rle8_sh_compress, rle8_sh_decompress, rle8_sh_bounds, 1 },
  { "rle8_mmtf128", rle8_mmtf128_compress, rle8_mmtf128_decompress, rle8_mmtf128_compress_bounds, 1 },
  { "rle8_low_entropy", rle8_low_entropy_compress, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, 1 },
  { "rle8_low_entropy_max", rle8_low_entropy_compress_only_max_frequency, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, 1 },
  { "rle8_low_entropy_short", rle8_low_entropy_short_compress, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, 1 },
  { "rle8_low_entropy_short_max", rle8_low_entropy_short_compress_only_max_frequency, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, 1 },
  { "mmtf128", mmtf128_encode, mmtf128_decode, mmtf_bounds, 1 },
  { "mmtf256", mmtf256_encode, mmtf256_decode, mmtf_bounds, 1 },
  { "bitmmtf8", bitmmtf8_encode, bitmmtf8_decode, bitmmtf_bounds, 1 },
  { "bitmmtf16", bitmmtf16_encode, bitmmtf16_decode, bitmmtf_bounds, 1 },
  { "rle8m_1", rle8m_1_c, rle8m_decompress, rle8m_1_b, 1 },
  { "rle8m_2", rle8m_2_c, rle8m_decompress, rle8m_2_b, 1 },
  { "rle8m_3", rle8m_3_c, rle8m_decompress, rle8m_3_b, 1 },
  { "rle8m_8", rle8m_8_c, rle8m_decompress, rle8m_8_b, 1 },
  { "rle8m_40", rle8m_40_c, rle8m_decompress, rle8m_40_b, 1 },
  { "rle8_low_entropy_info", le_info_c, le_info_d, rle8_low_entropy_compress_bounds, 1 },
  { "rle8_low_entropy_short_info", les_info_c, les_info_d, rle8_low_entropy_short_compress_bounds, 1 },
  { "rle8_low_entropy_max_info", lem_info_c, le_info_d, rle8_low_entropy_compress_bounds, 1 },
  { "rle8_low_entropy_short_all_info", lesa_info_c, les_info_d, table_b, 1 },
  { "rle8_low_entropy_table", le_table_c, rle8_low_entropy_decompress, table_b, 1 },
  { "rle8_low_entropy_table_info", le_table_c, le_info_d, table_b, 1 },
  { "rle8_low_entropy_short_table", les_table_c, rle8_low_entropy_short_decompress, table_b, 1 },
  { "rle8_low_entropy_short_table_info", les_table_c, les_info_d, table_b, 1 },
  { "rle8m_any", rle8m_any_c, rle8m_decompress, rle8m_any_b, 1 },
};
const int codecN = sizeof(codecs) / sizeof(codecs[0]);
