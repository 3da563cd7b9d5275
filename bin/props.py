"""Which harness runs decide which property, with their bounds."""

COMMON_ASSUMPTIONS = [
    'LLVM IR emitted by the installed stable rustc for /repo (panic=abort, overflow checks on) is what is executed symbolically; the compiler and its O1 passes are trusted',
    'the engine (/verif/engine) and z3 are trusted; sampled paths are re-run natively to check the engine',
    'allocation never fails; the hash function of HashMap is replaced by a constant (keys are still compared), or, in the jobs with a hash=B,N bound, by any function of B bits on the first N keys of a path',
]


def J(entry, params=(), time=120, **kw):
    d = dict(entry=entry, params=list(params), time=time)
    d.update(kw)
    return d


PROPS = {}


def P(pid, bounds, outside, quick, thorough=None, assumptions=()):
    PROPS[pid] = dict(bounds=bounds, outside=outside, quick=quick, thorough=thorough or quick,
                      assumptions=list(assumptions))


LONG = dict(steps=400000000)
# any hash function of B bits on at most N keys (constant beyond): every order in which a HashMap can yield its entries
H = dict(hash='1,8')
H6 = dict(hash='1,6')
HT = dict(hash='2,6')

# every supported opcode without a string operand, by number of operand words
INST = {
    0: [1, 2, 108, 111, 1000, 1056, 1253],
    1: [1, 2, 108, 111, 112, 120, 124, 1017, 1019, 1020, 1026, 1030, 1248, 1249],
    2: [1, 2, 111, 112, 121, 123, 125, 131, 142, 1001, 1014, 1016, 1022, 1027, 1029, 1043, 1055, 1062, 1071, 1247],
    3: [1, 112, 126, 127, 128, 130, 132, 133, 134, 141, 143, 1021, 1023, 1024, 1028, 1032, 1059, 1061, 1065, 1072, 1112, 1124, 1246, 1250],
    4: [1, 114, 135, 1054, 1128, 1141, 1149, 1152, 1170, 1191, 1197, 1199, 1245],
    5: [1, 114, 136, 1016, 1061, 1065, 1250],
    6: [1, 137, 1245],
    7: [1, 138],
    8: [1, 139, 1025],
    9: [1, 140, 1025],
}
INST_Q = [J('h_inst', [n], covers=INST.get(n, [1])) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)]
INST_T = [J('h_inst', [n], covers=INST.get(n, [1])) for n in list(range(0, 21)) + [24, 28, 32, 40, 48, 64]]
# opcodes with a string operand: any operand words, the string ASCII, its end anywhere or nowhere
STR_Q = [J('h_inst_str', [n, q]) for (n, q) in
         [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (5, 2), (6, 3), (6, 4), (7, 3)]]
STR_T = [J('h_inst_str', [n, q], 400) for n in range(0, 13) for q in sorted(set([2, 3, 4, 5, 6, n])) if q <= n]
ANY = [1000 + o for o in (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
                         31, 32, 33, 43, 44, 54, 55, 56, 59, 61, 62, 65, 71, 72, 124, 112, 128, 152, 170, 191, 199, 245, 246, 247, 248, 249, 250, 253)]
# several instructions together: any two, one kind many times, any one among one of each
MULTI_Q = [J('h_pair', [p], covers=ANY) for p in (0, 7, 11)] + [J('h_row', [3, 1, 0], covers=[1]), J('h_row', [40, 0, 0], covers=[1]), J('h_row', [300, 1, 0], covers=[1], **LONG)] + \
          [J('h_among', [n, n & 1], covers=[1]) for n in (0, 1, 2, 3, 4, 6)] + [J('h_triple', [0], covers=[1])]
MULTI_T = [J('h_pair', [p], 600, covers=ANY) for p in (0, 1, 2, 3, 7, 11, 12, 15)] + \
          [J('h_row', [n, r, 0], 600, covers=[1], **LONG) for n in (2, 3, 17, 40, 300) for r in (0, 1)] + \
          [J('h_row', [70000, 0, op], 300, covers=[1], **LONG) for op in (0, 248, 62, 43)] + \
          [J('h_among', [n, r], 300) for n in (0, 1, 2, 3, 4, 5, 6, 8) for r in (0, 1)] + \
          [J('h_among_enum', [r], 900, covers=[1]) for r in (0, 1)] + [J('h_triple', [0], covers=[1]), J('h_triple', [1], 3600)]
LISTS_Q = [J('h_list', [0, 530], covers=[1], **LONG), J('h_list', [1023, 1025], covers=[1], **LONG), J('h_list', [4095, 4097], covers=[1], **LONG)]
LISTS_T = [J('h_list', [0, 1100], 900, covers=[1], **LONG), J('h_list', [2040, 2050], covers=[1], **LONG), J('h_list', [4095, 4097], covers=[1], **LONG),
           J('h_list', [32767, 32769], 300, covers=[1], **LONG)]
# long strings of characters of one to four bytes, at every place that takes one; one word of any bytes
STRLONG_1 = [J('h_string_long', [n, 0, 0], covers=[1], **LONG) for n in list(range(2, 36)) + [63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300]]
STRLONG_2 = [J('h_string_long', [n, 0, 0], covers=[1], **LONG) for n in (300, 511, 512, 513, 1023, 1024, 1025, 1100)]
STRLONG_Q = STRLONG_1 + STRLONG_2[1:] + \
            [J('h_string_long', [n, 3, op]) for n in (6, 18, 70) for op in (5, 71)] + [J('h_string_long', [30, 2, 71])]
STRLONG_T = [J('h_string_long', [n, 0, 0], 300, covers=[1], **LONG) for n in list(range(2, 140)) + [255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 1100, 4095, 4096, 4097]] + \
            [J('h_string_long', [65000, 0, op], 300, covers=[1], **LONG) for op in (5, 15, 71)] + \
            [J('h_string_long', [n, k, 0], 900) for n in (5, 18, 66, 300) for k in (1, 2, 3)]
PAIRS_Q = [J('h_stream', [n], covers=[1]) for n in (2, 3, 4)]

P('C01',
  'every byte string of 0..31 bytes (lengths 0-5, 19-32) and every module of a valid header and up to 4 arbitrary words plus up to 3 bytes, with and without registered sets; one instruction of up to 12 arbitrary operand words for every opcode; string opcodes with up to 7 operand words; list and string instructions of the maximal 65535 words; imports and extended instructions in any order, 3 at a time; any two instructions of any kind, any three of 30 kinds; 3, 40 and 300 of one kind, 66000 labels; one of each kind with any one missing or changed; lists of 1023..1025 and 4095..4097 words, strings of 300, 511..513, 1023..1025 and 1100 words; 20 imports and uses',
  'longer free-form streams; fully arbitrary bytes in strings longer than 2 words; allocations of a computed size between 1 and 6 GB are reported but cannot be confirmed here',
  [J('h_bytes', [n]) for n in (0, 1, 2, 3, 4, 5, 19, 20, 21, 22, 23, 24, 25, 27, 28, 31, 32)] +
  [J('h_words', [n, e, s]) for n in (0, 1, 2, 3) for (e, s) in ((0, 0), (1, 0), (3, 1))] +
  [J('h_words', [4, 0, 0], 200, covers=[1, 101, 107, 108, 109, 110, 111, 112, 113, 120, 141])] +
  INST_Q[5:] + STR_Q +
  [J('h_ext', [3, 0], covers=[1]), J('h_string', [2, 0, 5]),
   J('h_long', [65535, 0, 0], covers=[1], **LONG), J('h_long', [65535, 6, 0], covers=[1], **LONG),
   J('h_long', [65535, 1, 1], covers=[101], **LONG)] + MULTI_Q[:1] + MULTI_Q[3:8] + MULTI_Q[-1:] + STRLONG_2 + LISTS_Q[1:] + [J('h_ext_many', [20]), J('h_row', [66000, 0, 248], covers=[1], **LONG)],
  [J('h_bytes', [n]) for n in range(0, 37)] +
  [J('h_words', [n, e, s], 600) for n in (0, 1, 2, 3, 4) for e in (0, 1, 2, 3) for s in (0, 1)] +
  [J('h_words', [5, 0, 0], 2400)] + INST_T + STR_T +
  [J('h_ext', [3, k], 300) for k in range(6)] + [J('h_ext', [4, 0], 1200), J('h_string', [3, 0, 5], 600)] +
  [J('h_long', [65535, k, c], 300, **LONG) for k in range(8) for c in (0, 1)] + MULTI_T + STRLONG_T + LISTS_T + [J('h_ext_many', [n], 300) for n in (20, 100)])

P('C02',
  'every value of all five header words, little- and big-endian; every truncation point 0..20 bytes and every 1..3 trailing bytes; every header in front of one or two instructions of any kind with any ids, literals and enumerants, and in front of one of each',
  'headers in front of other combinations of instructions',
  [J('h_header', [0], covers=[1, 13, 14, 16]), J('h_header', [1], covers=[1, 13, 14, 16]),
   J('h_header_cut', covers=[1, 11, 12, 13, 14, 16])] + [J('h_header_body', [k, o], covers=[1, 13, 14, 16]) for k in (0, 1, 2) for o in (0, 1)])

P('C03',
  'every header of 0..5 words; every single instruction of up to 7 words (strings: ASCII) and every split of 4 words into instructions, read in both byte orders; any two instructions with any ids, literals and enumerants; lists of 8..35, 64, 65, 70, 127..129, 255..257, 300, 1023..1025 and 1200 words of any values and strings of that length',
  'longer free-form streams',
  [J('h_order_header', covers=[1, 101, 103, 104, 106])] +
  [J('h_order_inst', [n, 0], covers=[1]) for n in (1, 2, 3, 4, 5, 6, 7)] +
  [J('h_order_inst', [n, 1]) for n in (2, 3, 4, 5, 6)] + [J('h_order_stream', [n]) for n in (2, 3, 4)] +
  [J('h_order_long', [n], covers=[1], **LONG) for n in list(range(8, 36)) + [64, 65, 70, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 1200]] + [J('h_order_pair', [0], covers=[1]), J('h_order_pair', [1], covers=[1])],
  [J('h_order_header', covers=[1, 101, 103, 104, 106])] +
  [J('h_order_inst', [n, 0], 600, covers=[1]) for n in range(1, 13)] +
  [J('h_order_inst', [n, 1], 600) for n in range(2, 9)] + [J('h_order_stream', [n], 1200) for n in (2, 3, 4, 5, 6)] +
  [J('h_order_long', [n], 300, covers=[1], **LONG) for n in list(range(8, 40)) + [64, 65, 128, 129, 255, 256, 300, 1025, 4097, 65000]] +
  [J('h_order_pair', [0], 300, covers=[1]), J('h_order_pair', [1], 300, covers=[1])])

P('C04',
  'streams of up to 5 arbitrary words over a set of 12 opcodes (no, fixed and list operands, unknown and unimplemented), split in every way by their declared counts, plus 0..3 trailing bytes, in either byte order; one instruction of every opcode with 0..12 operand words; instructions of 301 and 65535 words, whole and cut short; any two instructions of any kind, any three of 30 kinds, up to 300 of one kind, 66000 branches, one of each kind; lists of 0..530, 1023..1025 and 4095..4097 words; strings of 2..35, 63..66, 127..129, 255..257 and 300 words',
  'free-form streams of more than 5 words (7 in the thorough tier)',
  [J('h_stream', [n, e], 200, covers=[1, 101, 102, 109]) for (n, e) in ((1, 0), (2, 1), (3, 1), (4, 0), (5, 0))] + INST_Q + STR_Q[:8] +
  [J('h_long', [wc, k, c], **LONG) for wc in (301, 65535) for (k, c) in ((0, 0), (4, 0), (6, 0), (0, 1), (5, 2))] + MULTI_Q + LISTS_Q + STRLONG_1 + [J('h_row', [66000, 0, 249], covers=[1], **LONG)],
  [J('h_stream', [n, e], 1800, covers=[1, 101, 102, 109]) for n in (1, 2, 3, 4, 5, 6, 7) for e in (0, 1)] + INST_T + STR_T +
  [J('h_long', [wc, k, c], 300, **LONG) for wc in (17, 256, 257, 300, 301, 4096, 4097, 65535) for k in range(8) for c in (0, 1)] + MULTI_T + LISTS_T + STRLONG_T)

P('C05',
  'one instruction of every opcode with 0..12 arbitrary operand words (string opcodes: up to 7, ASCII, string ending anywhere); streams of up to 4 words; instructions of 301 and 65535 words; any two instructions of any kind, any three of 30 kinds, up to 300 of one kind, one of each kind; lists of 0..530, 1023..1025 and 4095..4097 words; strings of 2..35, 63..66, 127..129, 255..257 and 300 words',
  'operand lists of other lengths; longer combinations of instructions',
  INST_Q + STR_Q + PAIRS_Q +
  [J('h_long', [wc, k, 0], covers=[1], **LONG) for wc in (301, 65535) for k in range(8)] + [J('h_ext', [2, 0]), J('h_row', [3, 1, 0], **H6)] + MULTI_Q + LISTS_Q + STRLONG_1,
  INST_T + STR_T + [J('h_stream', [n], 1800) for n in (5, 6)] +
  [J('h_long', [wc, k, 0], 300, covers=[1], **LONG) for wc in (17, 257, 4097, 65535) for k in range(8)] +
  [J('h_ext', [3, 0], 300)] + MULTI_T + LISTS_T + STRLONG_T)

P('C06',
  'all 65536 opcodes with 0..12 operand words of any value (string opcodes: up to 7 words); any two instructions of any kind, any three of 30 kinds, up to 300 of one kind, one of each kind',
  'more than 12 operand words (64 in the thorough tier)',
  INST_Q + STR_Q + MULTI_Q + LISTS_Q[:1], INST_T + STR_T + MULTI_T + LISTS_T)

P('C07',
  'every 32-bit value of every enumerant and mask operand, in every instruction and position that takes one, with 0..12 operand words; enumerants after a string with the string ending in any of the first words or of 2..35, 64, 65, 128, 129, 256 and 300 words; any enumerants in any two instructions',
  'other combinations of instructions',
  INST_Q + STR_Q + MULTI_Q + [J('h_string_long', [n, 0, op], covers=[1], **LONG) for n in list(range(2, 36)) + [64, 65, 128, 129, 256, 300] for op in (71, 72)],
  INST_T + STR_T + MULTI_T + STRLONG_T)

P('C08',
  'strings of 1 and 2 words with any bytes at all (all of UTF-8 validity) at OpName, 1 word at all twelve string operands followed by 0 or 1 arbitrary words; ASCII strings of up to 7 words with the terminator anywhere or nowhere; strings of 301 and 65535 words; strings of 2..35, 63..66, 127..129, 255..257, 300, 511..513, 1023..1025 and 1100 words of characters of one to four bytes, of 6, 18, 30 and 70 words with any one word of any bytes',
  'other non-ASCII strings of more than 2 words (3 in the thorough tier)',
  [J('h_string', [1, 0, 0], 200, covers=[1, 110, 111, 1002, 1005, 1015]), J('h_string', [2, 0, 5], covers=[1, 110, 111]),
   J('h_string', [1, 1, 5]), J('h_string', [1, 1, 15]), J('h_string', [2, 0, 31])] + STR_Q +
  [J('h_long', [wc, k, c], **LONG) for wc in (301, 65535) for (k, c) in ((6, 0), (7, 0), (7, 1))] + STRLONG_Q,
  [J('h_string', [1, 0, 0], 600), J('h_string', [2, 0, 0], 1200), J('h_string', [1, 1, 0], 1200),
   J('h_string', [2, 1, 0], 3000), J('h_string', [3, 0, 5], 1200), J('h_string', [3, 0, 7], 1200)] + STR_T +
  [J('h_long', [wc, k, c], 300, **LONG) for wc in (17, 257, 301, 4097, 65535) for (k, c) in ((6, 0), (7, 0), (7, 1))] + STRLONG_T)

EXTNAME = [J('h_ext_name', [k], covers=[1, 113, 115]) for k in range(5)]
P('C09',
  'every sequence of 3 instructions, each an import of any one-word name, of the built-in name or near misses of it onto any id, or an extended instruction with any ids, number and up to 3 operand words; six registrations of sets (none, one, several, repeated, in any order); the same sets again after other instructions; up to 100 imports and uses; names close to those of registered sets (any character at any place, any case, anything in front or behind, sets whose names begin alike); extended instructions next to any other instruction',
  'longer sequences (4 in the thorough tier) and other names',
  [J('h_ext', [2, k]) for k in range(6)] +
  [J('h_ext', [3, 0], 200, covers=[1, 3, 4, 5, 111, 112, 113, 114, 115, 116]), J('h_ext', [3, 4], 200), J('h_ext', [3, 5], 200)] +
  [J('h_inst', [n]) for n in (4, 5, 6)] + [J('h_again', [k, u]) for k in range(5) for u in (0, 1)] +
  [J('h_ext_many', [n]) for n in (1, 5, 20, 40, 100)] + EXTNAME + [J('h_pair', [0], covers=[1, 1012]), J('h_among', [5, 0], covers=[1, 1012])] +
  [J('h_ext', [2, k], **H6) for k in (0, 4, 5)],
  [J('h_ext', [n, k], 600) for n in (1, 2, 3) for k in range(6)] + [J('h_ext', [4, k], 1800) for k in (0, 4)] +
  [J('h_inst', [n]) for n in (4, 5, 6, 8)] +
  [J('h_again', [k, u]) for k in range(5) for u in (0, 1)] + [J('h_ext_many', [n], 300) for n in (1, 5, 20, 40, 100, 300)] + EXTNAME + MULTI_T + [J('h_ext', [n, k], 900, **h) for n in (2, 3) for k in range(6) for h in (H6, HT)])

ALL_OPS = [1000 + o for o in (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
                              31, 32, 33, 43, 44, 54, 55, 56, 59, 61, 62, 65, 71, 72, 124, 112, 128, 152, 170, 191, 199, 245, 246, 247, 248, 249, 250, 253)]
P('C10',
  'every instruction with every enumerant, mask, presence of optional operands and list length 0..3, ids and literals any one-digit or any ten-digit number, strings of 0, 1, 3, 4, 5 characters; modules with any header and 0..2 instructions; strings with any one character of Unicode and up to 5 others on either side; lists and strings of 6..35, 63..65, 100, 127..129, 255..257, 300 and 512 elements; modules of 93 and 260 instructions, one of each kind and one kind repeated',
  'other lengths of lists and strings; numbers of other lengths (C11: any value at any one place)',
  [J('h_text', [0], 200, covers=ALL_OPS), J('h_text', [1], 200, covers=ALL_OPS),
   J('h_text_module', [1], covers=list(range(10, 23))), J('h_text_module', [2], covers=list(range(10, 23)))] +
  [J('h_text_char', [k], covers=[1005] + list(range(1, 15))) for k in (0, 1)] +
  [J('h_text_long', [n], covers=[1003, 1005, 1015, 1043, 1071, 1245], **LONG) for n in list(range(6, 36)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512]] +
  [J('h_text_lines', [93, 0], covers=[1], **LONG), J('h_text_lines', [260, 1], covers=[1], **LONG), J('h_text_module', [2], **H6)],
  [J('h_text', [0], 600, covers=ALL_OPS), J('h_text', [1], 600, covers=ALL_OPS), J('h_text', [2], 3000),
   J('h_text_module', [0]), J('h_text_module', [1]), J('h_text_module', [2]), J('h_text_module', [3], 600)] +
  [J('h_text_char', [k]) for k in (0, 1)] + [J('h_text_long', [n], 600, covers=[1003, 1005, 1015, 1043, 1071, 1245], **LONG) for n in list(range(6, 140)) + [200, 255, 256, 257, 300, 512, 513, 1025]] +
  [J('h_text_lines', [n, k], 600, covers=[1], **LONG) for n in (93, 186, 300) for k in (0, 1)])

NO_NUMBER = [1000, 1002, 1004, 1010, 1014, 1017, 1056, 1253]  # no ids and literals
P('C11',
  'every 32-bit value of any one number of any kind of instruction (result ids, id operands, literals, optional, list and mask parameters; lists of 3 elements, the other numbers one digit)',
  'two or more numbers of arbitrary values in one instruction (C10 has all of them one-digit or all ten-digit); longer lists',
  [J('h_column', [k], covers=[2, 5, 10]) for k in range(15)] + [J('h_number', [], 200, covers=[o for o in ALL_OPS if o not in NO_NUMBER])])

P('C12',
  'every list of 3 instruction classes after each of 18 beginnings, closed or not, and every insertion, removal or swap of one instruction of a complete module; every kind of instruction with any operands at any place, and any two kinds next to each other; the ids in them arbitrary; 20 patterns of sections, functions and blocks repeated 9 to 1025 times, with any one instruction put in or the list cut at six places',
  'more than 3 arbitrary classes in a row (4 in the thorough tier)',
  [J('h_layout', [p, 3, c, a], covers=[]) for p in range(18) for (c, a) in ((0, 0), (2, 1))] +
  [J('h_layout_edit', [1], covers=[1]), J('h_layout_kind', [0], 200, covers=[1]), J('h_layout_kind', [1], 200, covers=[1])] +
  [J('h_layout_long', [n, e, n & 1], covers=[1], **LONG) for (n, e) in ((9, 1), (20, 1), (40, 1), (65, 1), (130, 0), (300, 0), (1025, 0))] +
  [J('h_layout_pair', [0], covers=[1]), J('h_layout_pair', [1], covers=[1])] +
  [J('h_layout_edit', [1], covers=[1], **H), J('h_layout_long', [3, 0, 0], covers=[1], **H)],
  [J('h_layout', [p, n, c, a], 300) for p in range(18) for n in (3, 4) for c in (0, 1, 2) for a in (0, 1)] +
  [J('h_layout_edit', [1]), J('h_layout_edit', [2], 1200), J('h_layout_kind', [0], 600), J('h_layout_kind', [1], 600)] +
  [J('h_layout_long', [n, 1, a], 600, covers=[1], **LONG) for n in (5, 9, 17, 20, 33, 40, 65, 100, 129, 257, 300) for a in (0, 1)] +
  [J('h_layout_long', [n, 0, 0], 600, covers=[1], **LONG) for n in (1025, 4097)] +
  [J('h_layout_pair', [0], covers=[1]), J('h_layout_pair', [1], covers=[1])] +
  [J('h_layout_edit', [1], covers=[1], **H), J('h_layout_long', [3, 1, 0], 600, covers=[1], **H), J('h_layout_long', [9, 0, 0], 600, covers=[1], hash='1,12')])
P('C13', PROPS['C12']['bounds'], PROPS['C12']['outside'],
  [dict(j) for j in PROPS['C12']['quick']] + [J('h_layout', [0, 3, 0, 1], covers=[1, 2, 3, 6])],
  PROPS['C12']['thorough'])
P('C14', PROPS['C12']['bounds'] + '; stack use of 4 against 30 and 300 repetitions of 14 parts of a module',
  PROPS['C12']['outside'] + '; stack use is measured in calls of the executed code and confirmed natively at 300000 repetitions',
  [dict(j) for j in PROPS['C12']['quick']] +
  [J('h_layout_stack', [4, n], covers=list(range(14)), confirm=[4, 300000], **LONG) for n in (30, 300)],
  PROPS['C12']['thorough'] +
  [J('h_layout_stack', [4, 1000], 300, covers=list(range(14)), confirm=[4, 300000], steps=300000000)])

CFG_Q = [J('h_cfg', [1, 1, 0]), J('h_cfg', [2, 1, 0]), J('h_cfg', [3, 1, 0], 200, covers=[1, 102, 103, 104, 105, 106]),
         J('h_cfg', [4, 0, 1], 300, covers=[1, 102, 103, 104, 105, 106]), J('h_cfg', [3, 0, 1, 2], covers=[1, 102, 103, 104, 105, 106])]
CFG_T = CFG_Q + [J('h_cfg', [3, 1, 0, 2], 300), J('h_cfg', [4, 1, 1], 1200), J('h_cfg', [4, 0, 0], 1800), J('h_cfg', [5, 0, 1], 5400)]
CFG_B = ('every function of up to 3 blocks with any terminator, merge and targets (present or missing), of 4 blocks when one '
         'returns and merges precede the branches they belong to; blocks empty or, in functions of up to 3, one of them holding instructions of 11 kinds with any ids; any condition, parameter and function ids; ')
CFG_O = 'unstructured functions of more than 4 blocks (5 in the thorough tier)'
FEAT = [1, 11, 12, 13, 14, 15, 16]
STRUCT_Q = [J('h_cfg_structured', [4, 3, 0, 0], covers=FEAT), J('h_cfg_structured', [5, 4, 8, 1], 200, covers=FEAT), J('h_cfg_structured', [5, 4, 9, 2], 200, covers=FEAT),
            J('h_cfg_structured', [2, 2, 4, 1], covers=FEAT), J('h_cfg_structured', [3, 3, 4, 2], covers=FEAT), J('h_cfg_structured', [4, 4, 0, 1], covers=FEAT), J('h_cfg_structured', [3, 3, 0, 0], **H),
            J('h_cfg_structured', [3, 3, 0, 0, 2], covers=FEAT), J('h_cfg_structured', [4, 4, 0, 0, 1], covers=FEAT)]
LONGF_Q = [J('h_cfg_long', [n, 3, o, 1, 1], covers=FEAT, **LONG) for (n, o) in ((9, 0), (20, 1))] + [J('h_cfg_long', [40, 3, 2, 1, 0], covers=FEAT, **LONG)] + \
          [J('h_cfg_deep', [n, 3, o, 1, 1], covers=[1], **LONG) for (n, o) in ((6, 0), (12, 1), (20, 2))] + [J('h_cfg_deep', [40, 3, 1, 1, 0], covers=[1], **LONG), J('h_cfg_deep', [70, 3, 0, 1, 0], covers=[1], **LONG), J('h_cfg_long', [9, 0, 0, 0, 0, 2], covers=FEAT), J('h_cfg_long', [100, 3, 0, 0, 0], covers=FEAT, **LONG), J('h_cfg_long', [300, 3, 1, 0, 0], covers=FEAT, **LONG), J('h_cfg_deep', [12, 8, 0, 0, 1], covers=[1]), J('h_cfg_deep', [30, 9, 1, 0, 0], covers=[1]), J('h_cfg_long', [20, 8, 0, 0, 1], covers=FEAT), J('h_cfg_long', [40, 9, 1, 0, 0], covers=FEAT)]
LONGF_T = [J('h_cfg_long', [n, i, o, 1, 1], 900, covers=FEAT, **LONG) for n in (9, 17, 20, 33, 40) for i in (0, 1, 3) for o in (0, 1, 2)] + \
          [J('h_cfg_long', [n, 3, 0, 0, 0], 900, covers=FEAT, **LONG) for n in (100, 200, 300)] + \
          [J('h_cfg_deep', [n, i, o, 1, 1], 900, covers=[1], **LONG) for n in (6, 12, 20, 40) for i in (0, 1, 3) for o in (0, 1, 2)] + \
          [J('h_cfg_deep', [80, 3, 0, 0, 0], 900, covers=[1], **LONG)]
STRUCT_T = STRUCT_Q + [J('h_cfg_structured', [4, 3, 0, 0, 2], 300), J('h_cfg_structured', [6, 5, 8, 2], 1200), J('h_cfg_structured', [6, 5, 9, 1], 1200), J('h_cfg_structured', [5, 4, 4, 1], 600), J('h_cfg_structured', [4, 3, 4, 2], 600), J('h_cfg_structured', [4, 3, 2, 2]),
                       J('h_cfg_structured', [7, 5, 0, 0], 3600), J('h_cfg_structured', [3, 3, 1, 1], 900, hash='1,14'), J('h_cfg_structured', [3, 3, 0, 0], 900, **HT)]
STRUCT_B = ('every structured function of up to 5 statements nested up to 4 deep, with any hints and weights, three orders of the blocks, any block ids (up to 3 statements; for up to 5 any ids below 2^24 added to multiples of 2^24 in increasing or decreasing order), the blocks empty, or all of them (4 statements) or any one (3 statements, 9 in a row) holding instructions of 11 kinds with any ids; '
            'functions of 9 to 40, 100 and 300 statements of nine patterns in a row and of 6 to 70 levels of nine patterns, with any one statement (up to 20) or level (up to 20) of any other kind (such ids for up to 40 statements and 30 levels); every hash function of one bit on up to 8 ids for 3 statements')

P('C15', CFG_B + STRUCT_B + '; stack use of 4 against 30 and 300 constructs in a row for ten kinds of construct',
  CFG_O + '; stack use grows with nesting, and functions nested thousands deep are not claimed',
  CFG_Q + [J('h_cfg', [4, 1, 1], 300)] + STRUCT_Q[:1] + [J('h_cfg_dup', [3])] +
  [J('h_cfg_long', [40, 3, 1, 1, 0], covers=FEAT), J('h_cfg_deep', [12, 3, 1, 1, 1], covers=[1]), J('h_cfg_deep', [32, 0, 0, 0, 0], covers=[1]),
   J('h_cfg_fault', [12, 0, 0, 1]), J('h_cfg_fault', [10, 0, 3, 2])] +
  [J('h_cfg_stack', [4, n], covers=list(range(10)), confirm=[4, 200000], **LONG) for n in (30, 300)],
  CFG_T + STRUCT_T + [J('h_cfg_fault', [4, 3, 0], 600)] + LONGF_T +
  [J('h_cfg_fault', [30, 0, 0, 1], 900), J('h_cfg_fault', [30, 0, 3, 2], 900)] +
  [J('h_cfg_stack', [4, 600], 600, covers=list(range(10)), confirm=[4, 200000], steps=1000000000)])
P('C16', CFG_B + STRUCT_B + '; the comparison of structure and function is a bisimulation, so runs of any length and every sequence of branch outcomes are covered',
  CFG_O, CFG_Q + STRUCT_Q + LONGF_Q, CFG_T + STRUCT_T + LONGF_T)
P('C17', STRUCT_B, 'other longer or deeper functions (7 arbitrary statements in the thorough tier)', STRUCT_Q + LONGF_Q, STRUCT_T + LONGF_T)
P('C18', CFG_B + 'every single fault (missing target, missing merge, removed merge, side or body that returns, reused id) in every structured function of up to 4 statements (any block ids for up to 2, any ids below 2^24 added to ordered multiples of 2^24 for up to 4), of up to 3 also with instructions in the blocks; any ids and targets of up to 3 blocks, any ids of 4 in a ring, for duplicates; every such fault in functions of 12 statements in a row and of constructs nested 10 deep',
  CFG_O + '; larger functions with faults (5 statements in the thorough tier)',
  CFG_Q + [J('h_cfg_fault', [3, 2, 0], covers=[20, 21, 22, 23, 24, 25, 26]), J('h_cfg_fault', [4, 3, 8], 200, covers=[20, 21, 22, 23, 24, 25, 26]), J('h_cfg_fault', [3, 3, 9]), J('h_cfg_fault', [2, 2, 4])] +
  [J('h_cfg_dup', [2], covers=[1, 2]), J('h_cfg_dup', [3], covers=[1, 2]), J('h_cfg_dup', [4, 1], covers=[1, 2])] + [J('h_cfg_dup', [0], covers=[3]), J('h_cfg_dup', [1])] +
  [J('h_cfg_fault', [12, 0, 0, 1]), J('h_cfg_fault', [10, 0, 3, 2]), J('h_cfg_fault', [2, 2, 0], **H), J('h_cfg_dup', [3], **H), J('h_cfg_fault', [3, 2, 0, 0, 1])],
  CFG_T + [J('h_cfg_fault', [2, 2, 0], 300, hash='1,14'), J('h_cfg_fault', [3, 2, 0], 1200, **H), J('h_cfg_dup', [3], 600, **HT), J('h_cfg_fault', [4, 3, 1], 600), J('h_cfg_fault', [4, 3, 4], 1200), J('h_cfg_fault', [5, 3, 8], 2400)] +
  [J('h_cfg_fault', [n, 0, 0, 1], 900, **LONG) for n in (12, 20, 30)] + [J('h_cfg_fault', [n, 0, 3, 2], 900, **LONG) for n in (10, 20, 30)] + [J('h_cfg_dup', [n], 600) for n in range(0, 5)] + [J('h_cfg_dup', [n, 1], 600) for n in range(2, 7)])
PLONG_Q = [J('h_print_long', [20, 3, 0, 1], covers=[1], **LONG), J('h_print_deep', [12, 3, 1, 7], covers=[1], **LONG), J('h_print_deep', [70, 3, 0, 0], covers=[1], **LONG)]
PLONG_T = [J('h_print_deep', [n, 3, 0, 0], 900, covers=[1], **LONG) for n in (70, 140)] + [J('h_print_long', [n, i, o, 1], 600, covers=[1], **LONG) for n in (20, 60) for i in (0, 3) for o in (0, 1, 2)] + \
          [J('h_print_deep', [n, i, o, 7], 600, covers=[1], **LONG) for n in (12, 30, 60) for i in (0, 3) for o in (0, 1, 2)]
KIND = [1, 20, 21, 22, 23, 24, 25, 26]
P('C19', 'every structure of up to 2 parts per level nested up to 2 deep with every hint, weights, empty and non-empty sides, ids and numbers of one or ten digits; the structures of all structured functions of up to 4 statements, of 20 statements in a row and of 12 and 70 levels; any one block id or other number any 32-bit value in structures of one part and functions of up to 2 statements',
  'other larger structures',
  [J('h_chain', [1, 1, 0]), J('h_chain', [1, 1, 1]), J('h_chain', [1, 1, 2]), J('h_chain', [2, 2, 0], 200, covers=KIND), J('h_print', [3, 3, 2, 1, 0]),
   J('h_print', [2, 2, 0, 0, 2], covers=KIND), J('h_print', [2, 2, 0, 0, 3]), J('h_print', [4, 4, 0, 0, 0], 200), J('h_print', [2, 2, 7, 0, 0]), J('h_print', [2, 2, 0, 0, 0], **H)] + PLONG_Q,
  [J('h_chain', [2, 2, 0], 300), J('h_chain', [2, 2, 1], 300), J('h_chain', [3, 2, 0], 3600), J('h_chain', [1, 1, 2]), J('h_chain', [2, 1, 2], 1800), J('h_print', [2, 2, 0, 0, 3]), J('h_print', [2, 2, 0, 0, 0], **H), J('h_print', [3, 3, 1, 1, 0], 900, **H), J('h_print', [3, 3, 0, 1, 2], 600),
   J('h_print', [5, 4, 1, 2, 0], 1200)] + PLONG_T)
LIST = [1000 + o for o in (0, 1, 12, 59, 61, 62, 65, 112, 124, 128, 141, 152, 170, 191, 199, 245)]
P('C20', 'the listing of all structured functions of up to 3 statements with every hint and weights (4 without), with code in the blocks, five numberings and three orders of the blocks; 20 statements in a row, 12 and 70 levels; any one block id any number in functions of up to 2 statements; every kind of instruction a block can hold with any operands, in a block of its own or among others, in either side of a selection and in a loop',
  'other larger functions',
  [J('h_print', [2, 2, 0, 0, 2], covers=KIND), J('h_print', [3, 3, 0, 1, 2], 200, covers=KIND), J('h_print', [4, 4, 1, 2, 0], 200),
   J('h_print', [3, 3, 2, 1, 0]), J('h_print', [3, 3, 5, 1, 0]), J('h_print', [3, 3, 6, 2, 0]), J('h_print', [2, 2, 7, 0, 0]), J('h_print', [2, 2, 0, 0, 3]), J('h_print', [2, 2, 0, 0, 0], **H), J('h_listing_kind', [0], covers=LIST), J('h_listing_kind', [1], covers=LIST)] + [J('h_listing_kind', [r, k], covers=LIST) for r in (0, 1) for k in (1, 2, 3, 4)] + PLONG_Q,
  [J('h_print', [3, 3, n, o, 2], 600) for n in (0, 1, 2) for o in (0, 1, 2)] +
  [J('h_print', [2, 2, 0, 0, 3]), J('h_print', [3, 3, 7, 0, 0], 1200), J('h_print', [3, 3, 5, 1, 0]), J('h_print', [3, 3, 6, 2, 0]), J('h_print', [3, 3, 0, 0, 3], 1200), J('h_print', [2, 2, 0, 0, 0], **H), J('h_print', [3, 3, 1, 1, 0], 900, **H)] +
  [J('h_print', [4, 4, 0, 1, 2], 3600), J('h_print', [5, 4, 1, 2, 0], 1200), J('h_listing_kind', [0]), J('h_listing_kind', [1]),
   J('h_listing_kind', [2], 1200)] + [J('h_listing_kind', [r, k], 600, covers=LIST) for r in (0, 1) for k in (1, 2, 3, 4)] + PLONG_T)
P('C21', 'any two extended instructions of four sets (the built-in one and three others, two of one kind) with up to 2 operand words; any two modules of one import and one use; any two instructions of the same opcode with up to 3 arbitrary operand words each, or 4 words differing in one; any two headers with 0..2 instructions',
  'equality of longer instructions (derived field by field)',
  [J('h_eq_inst', covers=[1, 2, 10, 13, 15, 16, 20, 22, 25]), J('h_eq_ext', covers=[1, 2]), J('h_eq_header', covers=[1, 2])] +
  [J('h_eq_module', [n, 99, 0]) for n in (0, 1, 2, 3)] + [J('h_eq_module', [4, 3, 0], 100), J('h_eq_module', [4, 2, 0], 100)] +
  [J('h_eq_module', [2, 99, 1], covers=[1, 2]), J('h_eq_module', [3, 2, 1]), J('h_eq_module', [4, 3, 1]), J('h_eq_module', [3, 0, 1])],
  [J('h_eq_inst'), J('h_eq_ext'), J('h_eq_header')] + [J('h_eq_module', [n, 99, 0], 1200) for n in (0, 1, 2, 3, 4)] +
  [J('h_eq_module', [n, k, 0], 600) for n in (4, 5, 6, 9) for k in range(n)] +
  [J('h_eq_module', [n, k, 1], 600) for n in (2, 3, 4, 5) for k in list(range(n)) + [99]])
P('C22', 'extended instructions of up to 4 operand words of any value read by any sequence of up to 3 of 23 kinds of read (words, ids, sequences and options of elements of one, two and three words, of one byte, of no bytes and of 72 bytes); of 8 to 1025 words by any 2, of 65000 by any one; strings, string sequences and optional strings in up to 4 words',
  'more reads or words (the block is a slice, each read advances it); element types that take no word',
  [J('h_operands', [n, s]) for (n, s) in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 2), (3, 1), (3, 2), (4, 2))] +
  [J('h_operands', [n, 2], **LONG) for n in (8, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1025)] + [J('h_operands', [20, 3]), J('h_operands', [65000, 1], **LONG)] +
  [J('h_operands', [3, 3], covers=[1, 2] + list(range(100, 123))), J('h_operands', [3, 1], covers=[1, 2, 162])] +
  [J('h_operands_str', [n]) for n in (0, 1, 2, 3, 4)],
  [J('h_operands', [n, s], 1200) for n in range(0, 7) for s in (1, 2, 3)] + [J('h_operands', [n, 4], 1800) for n in (3, 4, 5)] +
  [J('h_operands_str', [n], 600) for n in range(0, 8)])
P('C23', 'the result of the input in a process that has done nothing else is compared with its result after other work: any module of one instruction of any kind (with any ids and literals) after any other such module read once, or (four kinds) 150 times, whole, cut short, with an unknown opcode, with a bad header or in the other byte order and without sets; names of 12 characters after names that differ in any one character or in length; the same module read and printed 20 times; any two such modules, and any two generators, printed in turn; 26 instruction lists after any of 52 others laid out once or 60 times; any two structured functions of up to 2 statements, with a missing target or a return at any block or not, analysed and printed once, or 150 times before one of 1 statement; any one of 16 actions over all stages after any two others; for 5 groups of inputs over all stages, the result under every hash function of one bit on up to 8 keys, against a constant one',
  'longer histories and larger inputs (3 statements in the thorough tier); several threads at once (the library keeps no state they could share)',
  [J('h_again_read', [k, 1], covers=[1]) for k in range(5)] + [J('h_again_read', [k, 150], covers=[1], **LONG) for k in range(5)] +
  [J('h_again_name', [12, 0], covers=[1]), J('h_again_name', [12, 1], covers=[1]),
   J('h_again_often', [20], covers=[1]), J('h_again_text', [0], covers=[1]), J('h_again_text', [1], covers=[1]),
   J('h_again_layout', [1], covers=[1, 2]), J('h_again_layout', [60], covers=[1, 2], **LONG),
   J('h_again_cfg', [2, 2, 1, 0], covers=[1, 2]), J('h_again_cfg', [1, 1, 1, 3], covers=[1, 2]), J('h_again_cfg', [1, 2, 150, 0], covers=[1], **LONG),
   J('h_again_any', [1], covers=[1, 2]), J('h_again_any', [2], covers=[1, 2])] +
  [J('h_again_hash', p, **H) for p in ([0, 2], [1, 2], [2], [3], [4])],
  [J('h_again_read', [k, 1], 300, covers=[1]) for k in range(5)] + [J('h_again_read', [k, 1000], 600, covers=[1], **LONG) for k in range(5)] +
  [J('h_again_name', [n, t], 300, covers=[1]) for n in (4, 8, 12, 20, 40, 100) for t in (0, 1)] +
  [J('h_again_often', [300], 600, covers=[1], **LONG), J('h_again_text', [0], covers=[1]), J('h_again_text', [1], covers=[1]),
   J('h_again_layout', [1], covers=[1, 2]), J('h_again_layout', [300], 600, covers=[1, 2], **LONG),
   J('h_again_cfg', [3, 2, 1, 0], 900), J('h_again_cfg', [2, 3, 1, 0], 900), J('h_again_cfg', [2, 2, 1, 3], 300), J('h_again_cfg', [2, 2, 150, 0], 900, **LONG),
   J('h_again_any', [1], covers=[1, 2]), J('h_again_any', [2], covers=[1, 2]), J('h_again_any', [3], 900, covers=[1, 2])] +
  [J('h_again_hash', p, 1200, hash=h) for p in ([0, 2], [1, 2], [1, 3], [2], [3], [4]) for h in ('1,8', '2,6', '1,14')])
KINDS = [1, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 120, 124, 131, 143]
P('C24', 'any instruction of 30 kinds, then any of 15 kinds of problem (for any instruction where any will do, with any ids, numbers and enumerants), then nothing, instructions, any other problem, a cut or misaligned end; 40, 300 and 1025 instructions before the problem; any instruction of 0..9 arbitrary operand words in front of three problems; any header in front of any of these; every kind of error with any values',
  'other combinations of instructions and problems',
  [J('h_first', [k], covers=KINDS) for k in (0, 1, 2)] + [J('h_first', [3, n], covers=KINDS, **LONG) for n in (40, 300, 1025)] +
  [J('h_first_any', [n], covers=[1, 101, 107, 108, 111]) for n in range(10)] +
  [J('h_first_header', covers=KINDS[1:] + [103, 104, 106]), J('h_message', covers=[100 + k for k in list(range(1, 17)) + list(range(20, 44))])] +
  [J('h_stream', [n], covers=[1, 101, 102, 109]) for n in (3, 4)],
  [J('h_first', [k], covers=KINDS) for k in (0, 1, 2)] + [J('h_first', [3, n], 600, covers=KINDS, **LONG) for n in (40, 300, 3000)] +
  [J('h_first_any', [n], 300, covers=[1, 101, 107, 108, 111]) for n in range(17)] +
  [J('h_first_header'), J('h_message'), J('h_stream', [5], 900)])
DEFINED = list(range(100, 163))
P('C25', 'every kind of instruction the library defines but cannot read, with every enumerant, every mask and presence of optional operands, lists of 0..3, 8, 40 and 300 elements; ids and literals all one-digit or all ten-digit, and any one of the first six any 32-bit number; the instructions that can be read with the bounds of C11 and, for lists and strings of 0..5, 8, 16, 32, 64 and 300 elements, C10',
  'lists of other lengths; numbers of other lengths at several places of one instruction',
  [J('h_text_value', p, covers=DEFINED, **LONG) for p in ([0, 0], [1, 0], [0, 40], [1, 8], [1, 300], [0, 0, 6])] +
  [J('h_text', [0], 200, covers=ALL_OPS), J('h_text', [1], 200, covers=ALL_OPS), J('h_number', [], 200), J('h_text_char', [1])] +
  [J('h_column', [k], covers=[2, 5, 10]) for k in range(15)] + [J('h_text_long', [n], **LONG) for n in (8, 16, 32, 64, 300)],
  [J('h_text_value', p, 900, covers=DEFINED, **LONG) for p in ([0, 0], [1, 0], [0, 40], [1, 2], [1, 8], [1, 40], [1, 300], [0, 300], [1, 1025], [0, 0, 6], [1, 0, 9], [0, 3, 12])] +
  PROPS['C10']['thorough'] + PROPS['C11']['thorough'])
