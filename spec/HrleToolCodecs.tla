--------------------------- MODULE HrleToolCodecs ---------------------------
(* Generated by gen_tool.py.  label: name in the report; comp, dec: the pair of functions; kind: family;
   bits: symbol (or transform) size; align: granularity of runs, where there is one; single: one symbol or
   several, "-" where that makes no sense, "?" where either answer would do. *)
ToolCodecs == <<
  [label |-> "8 Bit", comp |-> "rle8_multi_compress", dec |-> "rle8_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "8 Bit Short", comp |-> "rle8_multi_short_compress", dec |-> "rle8_multi_short_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "8 Bit Packed", comp |-> "rle8_packed_multi_compress", dec |-> "rle8_packed_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "8 Bit 1LUT Short", comp |-> "rle8_1symlut_short_compress", dec |-> "rle8_1symlut_short_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "8 Bit 3LUT", comp |-> "rle8_3symlut_compress", dec |-> "rle8_3symlut_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "8 Bit 3LUT Short", comp |-> "rle8_3symlut_short_compress", dec |-> "rle8_3symlut_short_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "8 Bit 7LUT", comp |-> "rle8_7symlut_compress", dec |-> "rle8_7symlut_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "8 Bit 7LUT Short", comp |-> "rle8_7symlut_short_compress", dec |-> "rle8_7symlut_short_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "8 Bit Single", comp |-> "rle8_single_compress", dec |-> "rle8_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "single", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "8 Bit Single Short", comp |-> "rle8_single_short_compress", dec |-> "rle8_single_short_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "single", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "8 Bit Single Packed", comp |-> "rle8_packed_single_compress", dec |-> "rle8_packed_decompress", kind |-> "extreme", bits |-> 8, align |-> "-", single |-> "single", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "16 Bit (Symbol)", comp |-> "rle16_sym_compress", dec |-> "rle16_sym_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "16 Bit Packed (Symbol)", comp |-> "rle16_sym_packed_compress", dec |-> "rle16_sym_packed_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "16 Bit Short (Symbol)", comp |-> "rle16_sym_short_compress", dec |-> "rle16_sym_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "16 Bit 1LUT Short (Symbol)", comp |-> "rle16_1symlut_sym_short_compress", dec |-> "rle16_1symlut_sym_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "16 Bit 3LUT (Symbol)", comp |-> "rle16_3symlut_sym_compress", dec |-> "rle16_3symlut_sym_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "16 Bit 3LUT Short (Symbol)", comp |-> "rle16_3symlut_sym_short_compress", dec |-> "rle16_3symlut_sym_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "16 Bit 7LUT (Symbol)", comp |-> "rle16_7symlut_sym_compress", dec |-> "rle16_7symlut_sym_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "16 Bit 7LUT Short (Symbol)", comp |-> "rle16_7symlut_sym_short_compress", dec |-> "rle16_7symlut_sym_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "16 Bit (Byte)", comp |-> "rle16_byte_compress", dec |-> "rle16_byte_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "16 Bit Packed (Byte)", comp |-> "rle16_byte_packed_compress", dec |-> "rle16_byte_packed_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "16 Bit Short (Byte)", comp |-> "rle16_byte_short_compress", dec |-> "rle16_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "16 Bit 1LUT Short (Byte)", comp |-> "rle16_1symlut_byte_short_compress", dec |-> "rle16_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "16 Bit 1LUT Short Grdy (Byte)", comp |-> "rle16_1symlut_byte_short_compress_greedy", dec |-> "rle16_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 1],
  [label |-> "16 Bit 3LUT (Byte)", comp |-> "rle16_3symlut_byte_compress", dec |-> "rle16_3symlut_byte_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "16 Bit 3LUT Short (Byte)", comp |-> "rle16_3symlut_byte_short_compress", dec |-> "rle16_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "16 Bit 3LUT Short Grdy (Byte)", comp |-> "rle16_3symlut_byte_short_compress_greedy", dec |-> "rle16_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 3],
  [label |-> "16 Bit 7LUT (Byte)", comp |-> "rle16_7symlut_byte_compress", dec |-> "rle16_7symlut_byte_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "16 Bit 7LUT Short (Byte)", comp |-> "rle16_7symlut_byte_short_compress", dec |-> "rle16_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "16 Bit 7LUT Short Grdy (Byte)", comp |-> "rle16_7symlut_byte_short_compress_greedy", dec |-> "rle16_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 16, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 7],
  [label |-> "24 Bit (Symbol)", comp |-> "rle24_sym_compress", dec |-> "rle24_sym_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "24 Bit Packed (Symbol)", comp |-> "rle24_sym_packed_compress", dec |-> "rle24_sym_packed_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "24 Bit Short (Symbol)", comp |-> "rle24_sym_short_compress", dec |-> "rle24_sym_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "24 Bit 1LUT Short (Symbol)", comp |-> "rle24_1symlut_sym_short_compress", dec |-> "rle24_1symlut_sym_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "24 Bit 3LUT (Symbol)", comp |-> "rle24_3symlut_sym_compress", dec |-> "rle24_3symlut_sym_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "24 Bit 3LUT Short (Symbol)", comp |-> "rle24_3symlut_sym_short_compress", dec |-> "rle24_3symlut_sym_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "24 Bit 7LUT (Symbol)", comp |-> "rle24_7symlut_sym_compress", dec |-> "rle24_7symlut_sym_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "24 Bit 7LUT Short (Symbol)", comp |-> "rle24_7symlut_sym_short_compress", dec |-> "rle24_7symlut_sym_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "24 Bit (Byte)", comp |-> "rle24_byte_compress", dec |-> "rle24_byte_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "24 Bit Packed (Byte)", comp |-> "rle24_byte_packed_compress", dec |-> "rle24_byte_packed_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "24 Bit Short (Byte)", comp |-> "rle24_byte_short_compress", dec |-> "rle24_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "24 Bit 1LUT Short (Byte)", comp |-> "rle24_1symlut_byte_short_compress", dec |-> "rle24_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "24 Bit 1LUT Short Grdy (Byte)", comp |-> "rle24_1symlut_byte_short_compress_greedy", dec |-> "rle24_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 1],
  [label |-> "24 Bit 3LUT (Byte)", comp |-> "rle24_3symlut_byte_compress", dec |-> "rle24_3symlut_byte_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "24 Bit 3LUT Short (Byte)", comp |-> "rle24_3symlut_byte_short_compress", dec |-> "rle24_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "24 Bit 3LUT Short Grdy (Byte)", comp |-> "rle24_3symlut_byte_short_compress_greedy", dec |-> "rle24_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 3],
  [label |-> "24 Bit 7LUT (Byte)", comp |-> "rle24_7symlut_byte_compress", dec |-> "rle24_7symlut_byte_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "24 Bit 7LUT Short (Byte)", comp |-> "rle24_7symlut_byte_short_compress", dec |-> "rle24_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "24 Bit 7LUT Short Grdy (Byte)", comp |-> "rle24_7symlut_byte_short_compress_greedy", dec |-> "rle24_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 24, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 7],
  [label |-> "32 Bit (Symbol)", comp |-> "rle32_sym_compress", dec |-> "rle32_sym_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "32 Bit Packed (Symbol)", comp |-> "rle32_sym_packed_compress", dec |-> "rle32_sym_packed_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "32 Bit Short (Symbol)", comp |-> "rle32_sym_short_compress", dec |-> "rle32_sym_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "32 Bit 1LUT Short (Symbol)", comp |-> "rle32_1symlut_sym_short_compress", dec |-> "rle32_1symlut_sym_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "32 Bit 3LUT (Symbol)", comp |-> "rle32_3symlut_sym_compress", dec |-> "rle32_3symlut_sym_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "32 Bit 3LUT Short (Symbol)", comp |-> "rle32_3symlut_sym_short_compress", dec |-> "rle32_3symlut_sym_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "32 Bit 7LUT (Symbol)", comp |-> "rle32_7symlut_sym_compress", dec |-> "rle32_7symlut_sym_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "32 Bit 7LUT Short (Symbol)", comp |-> "rle32_7symlut_sym_short_compress", dec |-> "rle32_7symlut_sym_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "32 Bit (Byte)", comp |-> "rle32_byte_compress", dec |-> "rle32_byte_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "32 Bit Packed (Byte)", comp |-> "rle32_byte_packed_compress", dec |-> "rle32_byte_packed_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "32 Bit Short (Byte)", comp |-> "rle32_byte_short_compress", dec |-> "rle32_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "32 Bit 1LUT Short (Byte)", comp |-> "rle32_1symlut_byte_short_compress", dec |-> "rle32_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "32 Bit 1LUT Short Grdy (Byte)", comp |-> "rle32_1symlut_byte_short_compress_greedy", dec |-> "rle32_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 1],
  [label |-> "32 Bit 3LUT (Byte)", comp |-> "rle32_3symlut_byte_compress", dec |-> "rle32_3symlut_byte_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "32 Bit 3LUT Short (Byte)", comp |-> "rle32_3symlut_byte_short_compress", dec |-> "rle32_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "32 Bit 3LUT Short Grdy (Byte)", comp |-> "rle32_3symlut_byte_short_compress_greedy", dec |-> "rle32_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 3],
  [label |-> "32 Bit 7LUT (Byte)", comp |-> "rle32_7symlut_byte_compress", dec |-> "rle32_7symlut_byte_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "32 Bit 7LUT Short (Byte)", comp |-> "rle32_7symlut_byte_short_compress", dec |-> "rle32_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "32 Bit 7LUT Short Grdy (Byte)", comp |-> "rle32_7symlut_byte_short_compress_greedy", dec |-> "rle32_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 32, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 7],
  [label |-> "48 Bit (Symbol)", comp |-> "rle48_sym_compress", dec |-> "rle48_sym_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "48 Bit Packed (Symbol)", comp |-> "rle48_sym_packed_compress", dec |-> "rle48_sym_packed_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "48 Bit Short (Symbol)", comp |-> "rle48_sym_short_compress", dec |-> "rle48_sym_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "48 Bit 1LUT Short (Symbol)", comp |-> "rle48_1symlut_sym_short_compress", dec |-> "rle48_1symlut_sym_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "48 Bit 3LUT (Symbol)", comp |-> "rle48_3symlut_sym_compress", dec |-> "rle48_3symlut_sym_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "48 Bit 3LUT Short (Symbol)", comp |-> "rle48_3symlut_sym_short_compress", dec |-> "rle48_3symlut_sym_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "48 Bit 7LUT (Symbol)", comp |-> "rle48_7symlut_sym_compress", dec |-> "rle48_7symlut_sym_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "48 Bit 7LUT Short (Symbol)", comp |-> "rle48_7symlut_sym_short_compress", dec |-> "rle48_7symlut_sym_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "48 Bit (Byte)", comp |-> "rle48_byte_compress", dec |-> "rle48_byte_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "48 Bit Packed (Byte)", comp |-> "rle48_byte_packed_compress", dec |-> "rle48_byte_packed_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "48 Bit Short (Byte)", comp |-> "rle48_byte_short_compress", dec |-> "rle48_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "48 Bit 1LUT Short (Byte)", comp |-> "rle48_1symlut_byte_short_compress", dec |-> "rle48_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "48 Bit 1LUT Short Grdy (Byte)", comp |-> "rle48_1symlut_byte_short_compress_greedy", dec |-> "rle48_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 1],
  [label |-> "48 Bit 3LUT (Byte)", comp |-> "rle48_3symlut_byte_compress", dec |-> "rle48_3symlut_byte_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "48 Bit 3LUT Short (Byte)", comp |-> "rle48_3symlut_byte_short_compress", dec |-> "rle48_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "48 Bit 3LUT Short Grdy (Byte)", comp |-> "rle48_3symlut_byte_short_compress_greedy", dec |-> "rle48_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 3],
  [label |-> "48 Bit 7LUT (Byte)", comp |-> "rle48_7symlut_byte_compress", dec |-> "rle48_7symlut_byte_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "48 Bit 7LUT Short (Byte)", comp |-> "rle48_7symlut_byte_short_compress", dec |-> "rle48_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "48 Bit 7LUT Short Grdy (Byte)", comp |-> "rle48_7symlut_byte_short_compress_greedy", dec |-> "rle48_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 48, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 7],
  [label |-> "64 Bit (Symbol)", comp |-> "rle64_sym_compress", dec |-> "rle64_sym_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "64 Bit Packed (Symbol)", comp |-> "rle64_sym_packed_compress", dec |-> "rle64_sym_packed_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "64 Bit Short (Symbol)", comp |-> "rle64_sym_short_compress", dec |-> "rle64_sym_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "64 Bit 1LUT Short (Symbol)", comp |-> "rle64_1symlut_sym_short_compress", dec |-> "rle64_1symlut_sym_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "64 Bit 3LUT (Symbol)", comp |-> "rle64_3symlut_sym_compress", dec |-> "rle64_3symlut_sym_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "64 Bit 3LUT Short (Symbol)", comp |-> "rle64_3symlut_sym_short_compress", dec |-> "rle64_3symlut_sym_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "64 Bit 7LUT (Symbol)", comp |-> "rle64_7symlut_sym_compress", dec |-> "rle64_7symlut_sym_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "64 Bit 7LUT Short (Symbol)", comp |-> "rle64_7symlut_sym_short_compress", dec |-> "rle64_7symlut_sym_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "64 Bit (Byte)", comp |-> "rle64_byte_compress", dec |-> "rle64_byte_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "64 Bit Packed (Byte)", comp |-> "rle64_byte_packed_compress", dec |-> "rle64_byte_packed_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "64 Bit Short (Byte)", comp |-> "rle64_byte_short_compress", dec |-> "rle64_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "64 Bit 1LUT Short (Byte)", comp |-> "rle64_1symlut_byte_short_compress", dec |-> "rle64_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 1],
  [label |-> "64 Bit 1LUT Short Grdy (Byte)", comp |-> "rle64_1symlut_byte_short_compress_greedy", dec |-> "rle64_1symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 1],
  [label |-> "64 Bit 3LUT (Byte)", comp |-> "rle64_3symlut_byte_compress", dec |-> "rle64_3symlut_byte_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 3],
  [label |-> "64 Bit 3LUT Short (Byte)", comp |-> "rle64_3symlut_byte_short_compress", dec |-> "rle64_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 3],
  [label |-> "64 Bit 3LUT Short Grdy (Byte)", comp |-> "rle64_3symlut_byte_short_compress_greedy", dec |-> "rle64_3symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 3],
  [label |-> "64 Bit 7LUT (Byte)", comp |-> "rle64_7symlut_byte_compress", dec |-> "rle64_7symlut_byte_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 7],
  [label |-> "64 Bit 7LUT Short (Byte)", comp |-> "rle64_7symlut_byte_short_compress", dec |-> "rle64_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 7],
  [label |-> "64 Bit 7LUT Short Grdy (Byte)", comp |-> "rle64_7symlut_byte_short_compress_greedy", dec |-> "rle64_7symlut_byte_short_decompress", kind |-> "extreme", bits |-> 64, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> TRUE, lut |-> 7],
  [label |-> "128 Bit (Symbol)", comp |-> "rle128_sym_compress", dec |-> "rle128_sym_decompress", kind |-> "extreme", bits |-> 128, align |-> "sym", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "128 Bit Packed (Symbol)", comp |-> "rle128_sym_packed_compress", dec |-> "rle128_sym_packed_decompress", kind |-> "extreme", bits |-> 128, align |-> "sym", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "128 Bit (Byte)", comp |-> "rle128_byte_compress", dec |-> "rle128_byte_decompress", kind |-> "extreme", bits |-> 128, align |-> "byte", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "128 Bit Packed (Byte)", comp |-> "rle128_byte_packed_compress", dec |-> "rle128_byte_packed_decompress", kind |-> "extreme", bits |-> 128, align |-> "byte", single |-> "multi", packed |-> TRUE, short |-> FALSE, greedy |-> FALSE, lut |-> 1],
  [label |-> "8 Bit RLE + Huffman-esque", comp |-> "rle8_sh_compress", dec |-> "rle8_sh_decompress", kind |-> "sh", bits |-> 8, align |-> "-", single |-> "-", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "8 Bit MMTF 128", comp |-> "rle8_mmtf128_compress", dec |-> "rle8_mmtf128_decompress", kind |-> "rlemmtf", bits |-> 128, align |-> "-", single |-> "-", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Low Entropy", comp |-> "rle8_low_entropy_compress", dec |-> "rle8_low_entropy_decompress", kind |-> "le", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Low Entropy Single", comp |-> "rle8_low_entropy_compress_only_max_frequency", dec |-> "rle8_low_entropy_decompress", kind |-> "le", bits |-> 8, align |-> "-", single |-> "single", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Low Entropy Short", comp |-> "rle8_low_entropy_short_compress", dec |-> "rle8_low_entropy_short_decompress", kind |-> "le", bits |-> 8, align |-> "-", single |-> "multi", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Low Entropy Short Single", comp |-> "rle8_low_entropy_short_compress_only_max_frequency", dec |-> "rle8_low_entropy_short_decompress", kind |-> "le", bits |-> 8, align |-> "-", single |-> "single", packed |-> FALSE, short |-> TRUE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Multi MTF 128 Bit (Transform)", comp |-> "mmtf128_encode", dec |-> "mmtf128_decode", kind |-> "mmtf", bits |-> 128, align |-> "-", single |-> "-", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Multi MTF 256 Bit (Transform)", comp |-> "mmtf256_encode", dec |-> "mmtf256_decode", kind |-> "mmtf", bits |-> 256, align |-> "-", single |-> "-", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Bit MMTF 8 Bit (Transform)", comp |-> "bitmmtf8_encode", dec |-> "bitmmtf8_decode", kind |-> "mmtf", bits |-> 8, align |-> "-", single |-> "?", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "Bit MMTF 16 Bit (Transform)", comp |-> "bitmmtf16_encode", dec |-> "bitmmtf16_decode", kind |-> "mmtf", bits |-> 16, align |-> "-", single |-> "?", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0],
  [label |-> "memcpy", comp |-> "", dec |-> "", kind |-> "memcpy", bits |-> 0, align |-> "-", single |-> "?", packed |-> FALSE, short |-> FALSE, greedy |-> FALSE, lut |-> 0]
>>
=============================================================================
