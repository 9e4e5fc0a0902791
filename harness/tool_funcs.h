// generated by spec/gen_tool.py: the functions the command line tool runs
#define TOOL_FUNCS(X) \
  X(rle8_multi_compress) \
  X(rle8_decompress) \
  X(rle8_multi_short_compress) \
  X(rle8_multi_short_decompress) \
  X(rle8_packed_multi_compress) \
  X(rle8_packed_decompress) \
  X(rle8_1symlut_short_compress) \
  X(rle8_1symlut_short_decompress) \
  X(rle8_3symlut_compress) \
  X(rle8_3symlut_decompress) \
  X(rle8_3symlut_short_compress) \
  X(rle8_3symlut_short_decompress) \
  X(rle8_7symlut_compress) \
  X(rle8_7symlut_decompress) \
  X(rle8_7symlut_short_compress) \
  X(rle8_7symlut_short_decompress) \
  X(rle8_single_compress) \
  X(rle8_single_short_compress) \
  X(rle8_single_short_decompress) \
  X(rle8_packed_single_compress) \
  X(rle16_sym_compress) \
  X(rle16_sym_decompress) \
  X(rle16_sym_packed_compress) \
  X(rle16_sym_packed_decompress) \
  X(rle16_sym_short_compress) \
  X(rle16_sym_short_decompress) \
  X(rle16_1symlut_sym_short_compress) \
  X(rle16_1symlut_sym_short_decompress) \
  X(rle16_3symlut_sym_compress) \
  X(rle16_3symlut_sym_decompress) \
  X(rle16_3symlut_sym_short_compress) \
  X(rle16_3symlut_sym_short_decompress) \
  X(rle16_7symlut_sym_compress) \
  X(rle16_7symlut_sym_decompress) \
  X(rle16_7symlut_sym_short_compress) \
  X(rle16_7symlut_sym_short_decompress) \
  X(rle16_byte_compress) \
  X(rle16_byte_decompress) \
  X(rle16_byte_packed_compress) \
  X(rle16_byte_packed_decompress) \
  X(rle16_byte_short_compress) \
  X(rle16_byte_short_decompress) \
  X(rle16_1symlut_byte_short_compress) \
  X(rle16_1symlut_byte_short_decompress) \
  X(rle16_1symlut_byte_short_compress_greedy) \
  X(rle16_3symlut_byte_compress) \
  X(rle16_3symlut_byte_decompress) \
  X(rle16_3symlut_byte_short_compress) \
  X(rle16_3symlut_byte_short_decompress) \
  X(rle16_3symlut_byte_short_compress_greedy) \
  X(rle16_7symlut_byte_compress) \
  X(rle16_7symlut_byte_decompress) \
  X(rle16_7symlut_byte_short_compress) \
  X(rle16_7symlut_byte_short_decompress) \
  X(rle16_7symlut_byte_short_compress_greedy) \
  X(rle24_sym_compress) \
  X(rle24_sym_decompress) \
  X(rle24_sym_packed_compress) \
  X(rle24_sym_packed_decompress) \
  X(rle24_sym_short_compress) \
  X(rle24_sym_short_decompress) \
  X(rle24_1symlut_sym_short_compress) \
  X(rle24_1symlut_sym_short_decompress) \
  X(rle24_3symlut_sym_compress) \
  X(rle24_3symlut_sym_decompress) \
  X(rle24_3symlut_sym_short_compress) \
  X(rle24_3symlut_sym_short_decompress) \
  X(rle24_7symlut_sym_compress) \
  X(rle24_7symlut_sym_decompress) \
  X(rle24_7symlut_sym_short_compress) \
  X(rle24_7symlut_sym_short_decompress) \
  X(rle24_byte_compress) \
  X(rle24_byte_decompress) \
  X(rle24_byte_packed_compress) \
  X(rle24_byte_packed_decompress) \
  X(rle24_byte_short_compress) \
  X(rle24_byte_short_decompress) \
  X(rle24_1symlut_byte_short_compress) \
  X(rle24_1symlut_byte_short_decompress) \
  X(rle24_1symlut_byte_short_compress_greedy) \
  X(rle24_3symlut_byte_compress) \
  X(rle24_3symlut_byte_decompress) \
  X(rle24_3symlut_byte_short_compress) \
  X(rle24_3symlut_byte_short_decompress) \
  X(rle24_3symlut_byte_short_compress_greedy) \
  X(rle24_7symlut_byte_compress) \
  X(rle24_7symlut_byte_decompress) \
  X(rle24_7symlut_byte_short_compress) \
  X(rle24_7symlut_byte_short_decompress) \
  X(rle24_7symlut_byte_short_compress_greedy) \
  X(rle32_sym_compress) \
  X(rle32_sym_decompress) \
  X(rle32_sym_packed_compress) \
  X(rle32_sym_packed_decompress) \
  X(rle32_sym_short_compress) \
  X(rle32_sym_short_decompress) \
  X(rle32_1symlut_sym_short_compress) \
  X(rle32_1symlut_sym_short_decompress) \
  X(rle32_3symlut_sym_compress) \
  X(rle32_3symlut_sym_decompress) \
  X(rle32_3symlut_sym_short_compress) \
  X(rle32_3symlut_sym_short_decompress) \
  X(rle32_7symlut_sym_compress) \
  X(rle32_7symlut_sym_decompress) \
  X(rle32_7symlut_sym_short_compress) \
  X(rle32_7symlut_sym_short_decompress) \
  X(rle32_byte_compress) \
  X(rle32_byte_decompress) \
  X(rle32_byte_packed_compress) \
  X(rle32_byte_packed_decompress) \
  X(rle32_byte_short_compress) \
  X(rle32_byte_short_decompress) \
  X(rle32_1symlut_byte_short_compress) \
  X(rle32_1symlut_byte_short_decompress) \
  X(rle32_1symlut_byte_short_compress_greedy) \
  X(rle32_3symlut_byte_compress) \
  X(rle32_3symlut_byte_decompress) \
  X(rle32_3symlut_byte_short_compress) \
  X(rle32_3symlut_byte_short_decompress) \
  X(rle32_3symlut_byte_short_compress_greedy) \
  X(rle32_7symlut_byte_compress) \
  X(rle32_7symlut_byte_decompress) \
  X(rle32_7symlut_byte_short_compress) \
  X(rle32_7symlut_byte_short_decompress) \
  X(rle32_7symlut_byte_short_compress_greedy) \
  X(rle48_sym_compress) \
  X(rle48_sym_decompress) \
  X(rle48_sym_packed_compress) \
  X(rle48_sym_packed_decompress) \
  X(rle48_sym_short_compress) \
  X(rle48_sym_short_decompress) \
  X(rle48_1symlut_sym_short_compress) \
  X(rle48_1symlut_sym_short_decompress) \
  X(rle48_3symlut_sym_compress) \
  X(rle48_3symlut_sym_decompress) \
  X(rle48_3symlut_sym_short_compress) \
  X(rle48_3symlut_sym_short_decompress) \
  X(rle48_7symlut_sym_compress) \
  X(rle48_7symlut_sym_decompress) \
  X(rle48_7symlut_sym_short_compress) \
  X(rle48_7symlut_sym_short_decompress) \
  X(rle48_byte_compress) \
  X(rle48_byte_decompress) \
  X(rle48_byte_packed_compress) \
  X(rle48_byte_packed_decompress) \
  X(rle48_byte_short_compress) \
  X(rle48_byte_short_decompress) \
  X(rle48_1symlut_byte_short_compress) \
  X(rle48_1symlut_byte_short_decompress) \
  X(rle48_1symlut_byte_short_compress_greedy) \
  X(rle48_3symlut_byte_compress) \
  X(rle48_3symlut_byte_decompress) \
  X(rle48_3symlut_byte_short_compress) \
  X(rle48_3symlut_byte_short_decompress) \
  X(rle48_3symlut_byte_short_compress_greedy) \
  X(rle48_7symlut_byte_compress) \
  X(rle48_7symlut_byte_decompress) \
  X(rle48_7symlut_byte_short_compress) \
  X(rle48_7symlut_byte_short_decompress) \
  X(rle48_7symlut_byte_short_compress_greedy) \
  X(rle64_sym_compress) \
  X(rle64_sym_decompress) \
  X(rle64_sym_packed_compress) \
  X(rle64_sym_packed_decompress) \
  X(rle64_sym_short_compress) \
  X(rle64_sym_short_decompress) \
  X(rle64_1symlut_sym_short_compress) \
  X(rle64_1symlut_sym_short_decompress) \
  X(rle64_3symlut_sym_compress) \
  X(rle64_3symlut_sym_decompress) \
  X(rle64_3symlut_sym_short_compress) \
  X(rle64_3symlut_sym_short_decompress) \
  X(rle64_7symlut_sym_compress) \
  X(rle64_7symlut_sym_decompress) \
  X(rle64_7symlut_sym_short_compress) \
  X(rle64_7symlut_sym_short_decompress) \
  X(rle64_byte_compress) \
  X(rle64_byte_decompress) \
  X(rle64_byte_packed_compress) \
  X(rle64_byte_packed_decompress) \
  X(rle64_byte_short_compress) \
  X(rle64_byte_short_decompress) \
  X(rle64_1symlut_byte_short_compress) \
  X(rle64_1symlut_byte_short_decompress) \
  X(rle64_1symlut_byte_short_compress_greedy) \
  X(rle64_3symlut_byte_compress) \
  X(rle64_3symlut_byte_decompress) \
  X(rle64_3symlut_byte_short_compress) \
  X(rle64_3symlut_byte_short_decompress) \
  X(rle64_3symlut_byte_short_compress_greedy) \
  X(rle64_7symlut_byte_compress) \
  X(rle64_7symlut_byte_decompress) \
  X(rle64_7symlut_byte_short_compress) \
  X(rle64_7symlut_byte_short_decompress) \
  X(rle64_7symlut_byte_short_compress_greedy) \
  X(rle128_sym_compress) \
  X(rle128_sym_decompress) \
  X(rle128_sym_packed_compress) \
  X(rle128_sym_packed_decompress) \
  X(rle128_byte_compress) \
  X(rle128_byte_decompress) \
  X(rle128_byte_packed_compress) \
  X(rle128_byte_packed_decompress) \
  X(rle8_sh_compress) \
  X(rle8_sh_decompress) \
  X(rle8_mmtf128_compress) \
  X(rle8_mmtf128_decompress) \
  X(rle8_low_entropy_compress) \
  X(rle8_low_entropy_decompress) \
  X(rle8_low_entropy_compress_only_max_frequency) \
  X(rle8_low_entropy_short_compress) \
  X(rle8_low_entropy_short_decompress) \
  X(rle8_low_entropy_short_compress_only_max_frequency) \
  X(mmtf128_encode) \
  X(mmtf128_decode) \
  X(mmtf256_encode) \
  X(mmtf256_decode) \
  X(bitmmtf8_encode) \
  X(bitmmtf8_decode) \
  X(bitmmtf16_encode) \
  X(bitmmtf16_decode)
