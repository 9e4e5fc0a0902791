----------------------------- MODULE HrleCodecs -----------------------------
(* Generated by gen_codecs.py.  fam: stream family, size: symbol bytes, sym: runs are whole symbols,
   lut: symbol cache slots (or sections), min: shortest run, single: one fixed symbol, pref7: 7 bit
   copy lengths, hdr: header bytes. *)
Codecs == [
  rle8_multi |-> [fam |-> "plain", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 6, single |-> FALSE, pref7 |-> FALSE, hdr |-> 9],
  rle8_single |-> [fam |-> "plain", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 4, single |-> TRUE, pref7 |-> FALSE, hdr |-> 10],
  rle8_packed_multi |-> [fam |-> "packed", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 9],
  rle8_packed_single |-> [fam |-> "packed", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 2, single |-> TRUE, pref7 |-> FALSE, hdr |-> 10],
  rle8_multi_short |-> [fam |-> "short", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_single_short |-> [fam |-> "short", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 2, single |-> TRUE, pref7 |-> FALSE, hdr |-> 9],
  rle8_1symlut_short |-> [fam |-> "short", size |-> 1, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_3symlut |-> [fam |-> "lut", size |-> 1, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_3symlut_short |-> [fam |-> "short", size |-> 1, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_7symlut |-> [fam |-> "lut", size |-> 1, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_7symlut_short |-> [fam |-> "short", size |-> 1, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_sym |-> [fam |-> "plain", size |-> 2, sym |-> TRUE, lut |-> 0, min |-> 6, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_sym_packed |-> [fam |-> "packed", size |-> 2, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_sym_short |-> [fam |-> "short", size |-> 2, sym |-> TRUE, lut |-> 0, min |-> 4, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_1symlut_sym_short |-> [fam |-> "short", size |-> 2, sym |-> TRUE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_3symlut_sym |-> [fam |-> "lut", size |-> 2, sym |-> TRUE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_3symlut_sym_short |-> [fam |-> "short", size |-> 2, sym |-> TRUE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_7symlut_sym |-> [fam |-> "lut", size |-> 2, sym |-> TRUE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_7symlut_sym_short |-> [fam |-> "short", size |-> 2, sym |-> TRUE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_byte |-> [fam |-> "plain", size |-> 2, sym |-> FALSE, lut |-> 0, min |-> 6, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_byte_packed |-> [fam |-> "packed", size |-> 2, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle16_byte_short |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 0, min |-> 4, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_1symlut_byte_short |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_1symlut_byte_short_greedy |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_3symlut_byte |-> [fam |-> "lut", size |-> 2, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_3symlut_byte_short |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_3symlut_byte_short_greedy |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_7symlut_byte |-> [fam |-> "lut", size |-> 2, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_7symlut_byte_short |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle16_7symlut_byte_short_greedy |-> [fam |-> "short", size |-> 2, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_sym |-> [fam |-> "plain", size |-> 3, sym |-> TRUE, lut |-> 0, min |-> 7, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_sym_packed |-> [fam |-> "packed", size |-> 3, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_sym_short |-> [fam |-> "short", size |-> 3, sym |-> TRUE, lut |-> 0, min |-> 5, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_1symlut_sym_short |-> [fam |-> "short", size |-> 3, sym |-> TRUE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_3symlut_sym |-> [fam |-> "lut", size |-> 3, sym |-> TRUE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_3symlut_sym_short |-> [fam |-> "short", size |-> 3, sym |-> TRUE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_7symlut_sym |-> [fam |-> "lut", size |-> 3, sym |-> TRUE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_7symlut_sym_short |-> [fam |-> "short", size |-> 3, sym |-> TRUE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_byte |-> [fam |-> "plain", size |-> 3, sym |-> FALSE, lut |-> 0, min |-> 7, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_byte_packed |-> [fam |-> "packed", size |-> 3, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle24_byte_short |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 0, min |-> 5, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_1symlut_byte_short |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_1symlut_byte_short_greedy |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_3symlut_byte |-> [fam |-> "lut", size |-> 3, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_3symlut_byte_short |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_3symlut_byte_short_greedy |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_7symlut_byte |-> [fam |-> "lut", size |-> 3, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_7symlut_byte_short |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle24_7symlut_byte_short_greedy |-> [fam |-> "short", size |-> 3, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_sym |-> [fam |-> "plain", size |-> 4, sym |-> TRUE, lut |-> 0, min |-> 8, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_sym_packed |-> [fam |-> "packed", size |-> 4, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_sym_short |-> [fam |-> "short", size |-> 4, sym |-> TRUE, lut |-> 0, min |-> 6, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_1symlut_sym_short |-> [fam |-> "short", size |-> 4, sym |-> TRUE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_3symlut_sym |-> [fam |-> "lut", size |-> 4, sym |-> TRUE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_3symlut_sym_short |-> [fam |-> "short", size |-> 4, sym |-> TRUE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_7symlut_sym |-> [fam |-> "lut", size |-> 4, sym |-> TRUE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_7symlut_sym_short |-> [fam |-> "short", size |-> 4, sym |-> TRUE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_byte |-> [fam |-> "plain", size |-> 4, sym |-> FALSE, lut |-> 0, min |-> 8, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_byte_packed |-> [fam |-> "packed", size |-> 4, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle32_byte_short |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 0, min |-> 6, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_1symlut_byte_short |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_1symlut_byte_short_greedy |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_3symlut_byte |-> [fam |-> "lut", size |-> 4, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_3symlut_byte_short |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_3symlut_byte_short_greedy |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_7symlut_byte |-> [fam |-> "lut", size |-> 4, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_7symlut_byte_short |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle32_7symlut_byte_short_greedy |-> [fam |-> "short", size |-> 4, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_sym |-> [fam |-> "plain", size |-> 6, sym |-> TRUE, lut |-> 0, min |-> 10, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_sym_packed |-> [fam |-> "packed", size |-> 6, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_sym_short |-> [fam |-> "short", size |-> 6, sym |-> TRUE, lut |-> 0, min |-> 8, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_1symlut_sym_short |-> [fam |-> "short", size |-> 6, sym |-> TRUE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_3symlut_sym |-> [fam |-> "lut", size |-> 6, sym |-> TRUE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_3symlut_sym_short |-> [fam |-> "short", size |-> 6, sym |-> TRUE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_7symlut_sym |-> [fam |-> "lut", size |-> 6, sym |-> TRUE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_7symlut_sym_short |-> [fam |-> "short", size |-> 6, sym |-> TRUE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_byte |-> [fam |-> "plain", size |-> 6, sym |-> FALSE, lut |-> 0, min |-> 10, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_byte_packed |-> [fam |-> "packed", size |-> 6, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle48_byte_short |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 0, min |-> 8, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_1symlut_byte_short |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_1symlut_byte_short_greedy |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_3symlut_byte |-> [fam |-> "lut", size |-> 6, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_3symlut_byte_short |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_3symlut_byte_short_greedy |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_7symlut_byte |-> [fam |-> "lut", size |-> 6, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_7symlut_byte_short |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle48_7symlut_byte_short_greedy |-> [fam |-> "short", size |-> 6, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_sym |-> [fam |-> "plain", size |-> 8, sym |-> TRUE, lut |-> 0, min |-> 12, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_sym_packed |-> [fam |-> "packed", size |-> 8, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_sym_short |-> [fam |-> "short", size |-> 8, sym |-> TRUE, lut |-> 0, min |-> 10, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_1symlut_sym_short |-> [fam |-> "short", size |-> 8, sym |-> TRUE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_3symlut_sym |-> [fam |-> "lut", size |-> 8, sym |-> TRUE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_3symlut_sym_short |-> [fam |-> "short", size |-> 8, sym |-> TRUE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_7symlut_sym |-> [fam |-> "lut", size |-> 8, sym |-> TRUE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_7symlut_sym_short |-> [fam |-> "short", size |-> 8, sym |-> TRUE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_byte |-> [fam |-> "plain", size |-> 8, sym |-> FALSE, lut |-> 0, min |-> 12, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_byte_packed |-> [fam |-> "packed", size |-> 8, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle64_byte_short |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 0, min |-> 10, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_1symlut_byte_short |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_1symlut_byte_short_greedy |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 1, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_3symlut_byte |-> [fam |-> "lut", size |-> 8, sym |-> FALSE, lut |-> 3, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_3symlut_byte_short |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_3symlut_byte_short_greedy |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 3, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_7symlut_byte |-> [fam |-> "lut", size |-> 8, sym |-> FALSE, lut |-> 7, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_7symlut_byte_short |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle64_7symlut_byte_short_greedy |-> [fam |-> "short", size |-> 8, sym |-> FALSE, lut |-> 7, min |-> 2, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle128_sym |-> [fam |-> "plain", size |-> 16, sym |-> TRUE, lut |-> 0, min |-> 20, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle128_sym_packed |-> [fam |-> "packed", size |-> 16, sym |-> TRUE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle128_byte |-> [fam |-> "plain", size |-> 16, sym |-> FALSE, lut |-> 0, min |-> 20, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle128_byte_packed |-> [fam |-> "packed", size |-> 16, sym |-> FALSE, lut |-> 0, min |-> 3, single |-> FALSE, pref7 |-> TRUE, hdr |-> 8],
  rle8_sh |-> [fam |-> "sh", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_mmtf128 |-> [fam |-> "mmtf", size |-> 16, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_max |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short_max |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_max_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_table |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_table_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short_all_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short_table |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8_low_entropy_short_table_info |-> [fam |-> "le", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 32, single |-> FALSE, pref7 |-> FALSE, hdr |-> 8],
  rle8m_any |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  rle8m_1 |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 1, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  rle8m_2 |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 2, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  rle8m_3 |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 3, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  rle8m_8 |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 8, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  rle8m_40 |-> [fam |-> "lem", size |-> 1, sym |-> FALSE, lut |-> 40, min |-> 255, single |-> FALSE, pref7 |-> FALSE, hdr |-> 12],
  mmtf128 |-> [fam |-> "mtf", size |-> 16, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 0],
  mmtf256 |-> [fam |-> "mtf", size |-> 32, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 0],
  bitmmtf8 |-> [fam |-> "delta", size |-> 1, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 0],
  bitmmtf16 |-> [fam |-> "delta", size |-> 2, sym |-> FALSE, lut |-> 0, min |-> 0, single |-> FALSE, pref7 |-> FALSE, hdr |-> 0]
]
\* parameterised codecs and compositions of building blocks, used by property C13 only
Tables == {"rle8_low_entropy_table", "rle8_low_entropy_table_info", "rle8_low_entropy_short_table", "rle8_low_entropy_short_table_info"}
Extra == Tables \cup {"rle8_low_entropy_max_info", "rle8_low_entropy_short_all_info", "rle8m_any"}
Offered == DOMAIN Codecs \ Extra
=============================================================================
