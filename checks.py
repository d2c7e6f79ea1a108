"""The checks: which harness with which bounds decides which property."""
CHECKS = {}
def check(prop, **kw):
    CHECKS[prop] = kw
UB = 'Symbolic execution is of the clang -O1 bitcode of the current sources; libstdc++ inline code is included, ICU, boost and libc calls run concretely on pinned values.'
check('C01',
    jobs=[dict(harness='c01', args=dict(quick='--n 5 --gn 4 --gen 150 --seed $SEED', thorough='--n 6 --gn 5 --gen 2500 --seed $SEED'), covers=['no hit', 'one hit', 'several hits'], budget=dict(quick=25, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every text of up to 5 bytes (ISO-8859-1) or 4 bytes (UTF-8) for each curated pattern, up to 4 bytes for 150 generated patterns with up to 4 atoms, 6 bytes UTF-16, 8 bytes UTF-32', thorough='every text of up to 6 bytes (5 in UTF-8) for each curated pattern, up to 5 bytes for 2500 generated patterns'),
    assumptions=[UB, 'The oracle is the backtracking matcher in harness/re.h; T{n,m} means T..T(T(..)?)? and an empty iteration ends an unbounded loop, as in PCRE.', 'Patterns are a finite list; texts within the bound are all covered.'])

SETS = 'each curated keyword set, each curated single pattern and %s generated sets of up to 3 patterns'
check('C02',
    jobs=[dict(harness='c02', args=dict(quick='--n 4 --cuts 1 --gen 60 --seed $SEED', thorough='--n 5 --cuts 2 --gen 400 --seed $SEED'), covers=['no hit', 'hit', 'several hits'], budget=dict(quick=15, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='every text of up to 4 bytes, every split into two buffers (either may be empty), for ' + SETS % 60, thorough='every text of up to 5 bytes, every split into three buffers (empty ones included), for ' + SETS % 400),
    assumptions=[UB, 'Buffers are separate exact-size allocations with inaccessible surroundings.'])
check('C03',
    jobs=[dict(harness='c03', args=dict(quick='--n 4 --cuts 1 --gen 60 --seed $SEED', thorough='--n 5 --cuts 2 --gen 300 --seed $SEED'), covers=['hit after a returned offset', 'hit resolved', 'resume before the end', 'resume at the end'], budget=dict(quick=15, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='every text of up to 4 bytes in up to two buffers; resolving in the second of two buffers; for ' + SETS % 60, thorough='every text of up to 5 bytes in up to three buffers; resolving in the second of two; for ' + SETS % 300),
    assumptions=[UB, 'The hits to be resolved are those of searching the whole text at once (which C01 compares with the reference).'])
check('C04',
    jobs=[dict(harness='c04', args=dict(quick='--n 4 --gen 100 --seed $SEED', thorough='--n 6 --gen 1000 --seed $SEED'), covers=['no hit', 'one hit', 'several hits'], budget=dict(quick=15, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='every buffer of up to 4 bytes, start offsets 0, 7 and 2^40, for ' + SETS % 100, thorough='every buffer of up to 6 bytes, start offsets 0, 7 and 2^40, for ' + SETS % 1000),
    assumptions=[UB, 'The context is new or reset, as in the statement.'])
check('C05',
    jobs=[dict(harness='c05', args=dict(quick='--n 4 --gen 40 --seed $SEED', thorough='--n 5 --gen 300 --seed $SEED'), covers=['no hit', 'hit'], budget=dict(quick=10, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='every text of up to 4 bytes in two buffers, six start offsets between 1 and 2^64-512, for ' + SETS % 40, thorough='every text of up to 5 bytes in two buffers, six start offsets, for ' + SETS % 300),
    assumptions=[UB])
check('C06',
    jobs=[dict(harness='c06', args=dict(quick='--n 4 --gen 80 --seed $SEED', thorough='--n 5 --gen 800 --seed $SEED'), covers=['no hit', 'one hit', 'several hits'], budget=dict(quick=10, thorough=60)),
          dict(harness='c06', args=dict(quick='--n 3 --gen 40 --depth 0 --seed $SEED', thorough='--n 4 --gen 400 --depth 0 --seed $SEED'), covers=['several hits'], budget=dict(quick=10, thorough=60), weight=0.5)],
    total=dict(quick=110, thorough=700),
    bounds=dict(quick='every text of up to 4 bytes, for each curated keyword set and 80 generated sets of up to 3 patterns, against each keyword alone and the reverse order; again up to 3 bytes at determinization depth 0', thorough='every text of up to 5 bytes, 800 generated sets; 4 bytes at depth 0'),
    assumptions=[UB])
check('C07',
    jobs=[dict(harness='c07', args=dict(quick='--n 4 --gen 60 --seed $SEED', thorough='--n 5 --gen 600 --seed $SEED'), covers=['no hit', 'hit'], budget=dict(quick=10, thorough=60))],
    total=dict(quick=110, thorough=700),
    bounds=dict(quick='every text of up to 4 bytes, depths 0, 1, 2, 3, 4, 10 and 2^32-1, for ' + SETS % 60, thorough='every text of up to 5 bytes, same depths, for ' + SETS % 600),
    assumptions=[UB])
check('C10',
    jobs=[dict(harness='c10', args=dict(quick='--n 3 --m 2 --gen 20 --seed $SEED', thorough='--n 3 --m 3 --gen 150 --seed $SEED'), covers=['no hit', 'hit', 'earlier hit'], budget=dict(quick=8, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='every earlier text of up to 2 bytes (searched and reset, closed out and reset, lg_starts_with, or interleaved in another context), every text of up to 3 bytes, for ' + SETS % 20, thorough='texts of up to 3 bytes each, for ' + SETS % 150),
    assumptions=[UB])
check('C08',
    jobs=[dict(harness='c08', args=dict(quick='--n 4 --gen 60 --seed $SEED', thorough='--n 6 --gen 600 --seed $SEED'), covers=['no hit', 'hit', 'user index'], budget=dict(quick=15, thorough=60))],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='three programs with every combination of 64-bit user indexes; every text of up to 4 bytes for ' + SETS % 60, thorough='three programs with every combination of 64-bit user indexes; every text of up to 6 bytes for ' + SETS % 600),
    assumptions=[UB, 'The image lies in an exact-size allocation with inaccessible surroundings; writing the program twice over different fillings shows that every byte is written.'])
check('C09',
    jobs=[dict(harness='c09', args=dict(quick='--tail 48 --n 24', thorough='--tail 400 --n 40'), covers=['cut', 'whole', 'accepted', 'refused'], budget=dict(quick=60, thorough=200), validate=['native', 'asan'])],
    total=dict(quick=110, thorough=700),
    bounds=dict(quick='three program images: cut at each of the first 300 and the last 48 lengths; every value of the first size field up to 64 above the right one or within 24 of the image size and above, every value of the second size field, every content of the last 14 bytes of the pattern map, and every combination of a first size and the byte that follows the map; every content of up to 24 bytes; negative sizes', thorough='the same with the last 400 lengths and every content of up to 40 bytes'),
    assumptions=[UB, 'Reads outside the image are detected in the engine (the image is surrounded by inaccessible memory) and, for a representative of sampled paths, by AddressSanitizer.'])
check('C13',
    jobs=[dict(harness='c13', args=dict(quick='--gen 60 --k 2 --seed $SEED', thorough='--gen 800 --k 2 --seed $SEED'), covers=['in the set', 'not in the set', 'match', 'no match', 'breakout byte'], budget=dict(quick=10, thorough=120))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every operation of the interval sets (byte sets with bound 255, code point sets) on operands of up to two ranges with symbolic end points, and a symbolic member; every text of one character in UTF-8, or of one byte, for curated classes and 60 generated ones with nesting, operators, named classes and breakout bytes', thorough='the same with 800 generated classes and more time for the two-range operands'),
    assumptions=[UB, 'Breakout bytes subtracted inside nested classes ([a[^b\\zFF]]) are left out: what they should denote is not documented.'])
check('C14',
    jobs=[dict(harness='c14', args=dict(quick='--k 3 --kt 2 --ka 1', thorough='--k 4 --kt 3 --ka 2'), covers=['rejected', 'accepted', 'accepted, not added', 'added'], budget=dict(quick=15, thorough=100), validate=['native', 'asan'])],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every pattern of up to 3 bytes, and every 2 bytes in the gap of each of 58 pattern templates, parsed from a slice with inaccessible surroundings; every byte in the gap also added, compiled and searched; every value of each option', thorough='every pattern of up to 4 bytes, every 3 bytes in the gaps, 2 of them added and searched'),
    assumptions=[UB, 'Accesses outside the slice are detected in the engine; other memory errors, for representatives of sampled paths, by AddressSanitizer and UBSan.', 'Names for ICU (\\p{..}, \\N{..}) are resolved by ICU on concrete values.'])
check('C15',
    jobs=[dict(harness='c15', args=dict(quick='--n 4 --gen 500 --seed $SEED', thorough='--n 5 --gen 4000 --seed $SEED'), covers=['no hit', 'one hit', 'several hits'], budget=dict(quick=10, thorough=40))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every text of up to 4 bytes for each pair of spellings of a fixed list and for about 500 generated patterns each counted and expanded, grouped, with a common prefix or suffix written once or in each branch, and rewritten against as parsed', thorough='every text of up to 5 bytes for about 4000 generated patterns'),
    assumptions=[UB, 'The tree as parsed is compiled by the same compiler; what that compiler makes of it is decided by C01.'])
check('C16',
    jobs=[dict(harness='c16', args=dict(quick='--na 3 --n8 3 --n16 4 --n32 5', thorough='--na 4 --n8 4 --n16 5 --n32 6'), covers=['bad bytes', 'no bad bytes', 'leading', 'trailing', 'context'], budget=dict(quick=60, thorough=300))],
    total=dict(quick=110, thorough=700),
    bounds=dict(quick='every buffer of up to 3 bytes (ASCII, UTF-8), 4 bytes (UTF-16) or 5 bytes (UTF-32), every hit in it, leading and trailing context of 0, 1, 2, 3 and 2^64-1 characters, offsets 0 and 2^40, three replacement characters', thorough='the same with one more byte each'),
    assumptions=[UB, 'Single-byte and multi-byte encodings decoded by ICU are not covered.'])
check('C11',
    jobs=[dict(harness='c11', args=dict(quick='--na 6 --n8 5 --n16 7 --n32 9', thorough='--na 8 --n8 6 --n16 8 --n32 12'), covers=['character', 'long character', 'bad byte'], budget=dict(quick=60, thorough=500))],
    total=dict(quick=110, thorough=700),
    bounds=dict(quick='every buffer of up to 6 bytes (ASCII), 5 (UTF-8), 7 (UTF-16), 9 (UTF-32), one less through the OCE byte transformation and after another, partly decoded buffer', thorough='every buffer of up to 8 bytes (ASCII), 6 (UTF-8), 8 (UTF-16), 12 (UTF-32), likewise'),
    assumptions=[UB, 'The oracle is the table of well-formed sequences of the Unicode standard as written in harness/re.h.', 'Encodings decoded by ICU are not covered: ICU is not encoded.'])
check('C12',
    jobs=[dict(harness='c12', args=dict(quick='--gen 15 --step 10 --icu 5 --seed $SEED', thorough='--gen 250 --step 1 --icu 1 --seed $SEED'), covers=['match', 'no match', 'encoded', 'not encodable'], budget=dict(quick=8, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every 32-bit value through the encoders of ASCII and the UTFs; for each UTF, every text of up to 4 bytes against ".", 38 boundary code points, a tenth of the 703 ranges between them, 15 unions of up to 4 ranges, some of them negated or OCE-transformed; for a fifth of the encodings of ICU, every byte (or every text of the longest length) against 6 to 8 patterns', thorough='the same with all ranges, 250 unions and all encodings'),
    assumptions=[UB, 'What ICU encodes a code point as is taken from ICU itself, asked directly.'])
check('C20',
    jobs=[dict(harness='c20', args=dict(quick='--n 4 --gen 100 --step 10 --seed $SEED', thorough='--n 4 --gen 1500 --step 1 --full 1 --seed $SEED'), covers=['a case variant', 'not a case variant', 'no hit', 'one hit', 'several hits'], budget=dict(quick=8, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every text of one character against the caseless pattern of every ASCII character and of a tenth of the characters that have case variants, in both modes, in UTF-8 (fewer in UTF-16, UTF-32 and ISO-8859-1); every text of up to 4 bytes for caseless and named classes, curated and 100 generated placements of inline switches in all four combinations of the options', thorough='the same with every character that has case variants, every named class in more encodings and 1500 generated patterns'),
    assumptions=[UB, 'The case variants of a character are those with the same full case folding, taken from ICU one character at a time; Unicode general categories are taken from ICU.', 'Patterns with a switch right after a vertical bar, which lightgrep refuses, are left out.'])
check('C21',
    jobs=[dict(harness='c21', args=dict(quick='--full 0', thorough='--full 1'), covers=['accepted', 'refused', 'counted', 'match', 'no match'], budget=dict(quick=12, thorough=250))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every one or two bytes after \\x and \\z, up to three octal digits and up to five digits after a backslash, every single-byte escape, every string of up to six hexadecimal digits in \\x{} and \\N{U+}, any byte in place of each digit of strings of up to 8, inside and outside classes; repetition counts with up to 4 symbolic digits each and curated longer ones around 2^31, 2^32 and 2^64; the escapes and counts compiled and searched', thorough='the same with up to 6 symbolic digits per count and more time for the six-digit escapes'),
    assumptions=[UB, 'Names for ICU (\\N{name}, \\p{..}) are left out.'])
check('C25',
    jobs=[dict(harness='c25', args=dict(quick='--gen 60 --step 4 --seed $SEED', thorough='--gen 1000 --step 1 --seed $SEED'), covers=['kept', 'refused', 'bit vector', 'one instruction', 'program', 'jump table'], budget=dict(quick=12, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every operand of every instruction (of those refused, boundary values in the lower 24 bits); the transitions of every subset of ten neighbouring bytes at seven places and of ten scattered bytes, of every range and pair beginning in a quarter of the bytes, and of ranges with one more byte; the programs of 14 pattern templates with one or two hexadecimal digits each, in three encodings and two determinization depths, and of curated and 60 generated patterns', thorough='the same with every first byte and 1000 generated patterns'),
    assumptions=[UB])
check('C19',
    jobs=[dict(harness='c19', args=dict(quick='--full 0', thorough='--full 1'), covers=['all added', 'none added', 'some added', 'not specified'], budget=dict(quick=12, thorough=100), validate=['native', 'asan'])],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every byte (or two) in the gaps of templates of pattern lists with one to four lines: separators, option columns, encoding columns, line ends, comments, blank and overlong lines, missing last line end; all values of the default options', thorough='the same with one more byte per gap'),
    assumptions=[UB, 'Empty columns and option texts of more than one character are unspecified.', 'The oracle adds the lines one by one through lg_parse_pattern and lg_add_pattern to another FSM.'])
check('C28',
    jobs=[dict(harness='c28', args=dict(quick='--steps 4 --n 2 --gen 12 --seed $SEED', thorough='--steps 5 --n 3 --gen 100 --seed $SEED'), covers=['refused', 'no program', 'no hit', 'hit'], budget=dict(quick=12, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every sequence of up to 4 steps (add one of the patterns of a set, add an invalid one, create a program), every text of up to 2 bytes, for curated and 12 generated sets', thorough='every sequence of up to 5 steps, every text of up to 3 bytes, 100 generated sets'),
    assumptions=[UB])
check('C17',
    jobs=[dict(harness='c17', cmd=True, args=dict(quick='--nf 6 --n 3 --nw 3 --ne 3 --m 3', thorough='--nf 9 --n 5 --nw 5 --ne 4 --m 4'), covers=['start of the buffer', 'later start', 'end of the buffer', 'earlier end', 'hit outside the buffer', 'hit partly outside', 'leading lines', 'trailing lines', 'printed', 'nothing printed', 'escaped', 'before', 'not before', 'one entry', 'several entries', 'second buffer'], budget=dict(quick=40, thorough=300), validate=['native', 'asan'])],
    total=dict(quick=100, thorough=700),
    bounds=dict(quick='the line searches: every text of up to 6 bytes, every position, 0 to 3 lines and numbers around 2^31 and 2^64; the text shown: every buffer of up to 3 bytes at offsets 0, 7 and 2^40, every hit in it, partly in it or near it, six pairs of line counts with none and 2^31-1, for ASCII, UTF-8 and UTF-16LE; the lines printed for two hits in every buffer of up to 3 bytes, with and without path and context; escaping of every text of up to 3 bytes; the order of two entries with any counts and indices and texts of up to 2 bytes; histograms of up to 3 hits of two keywords in buffers of up to 2 bytes out of four, with a change of buffer', thorough='texts of up to 9 bytes, buffers of up to 5, escaped texts of up to 4, histograms of up to 4 hits'),
    assumptions=[UB, 'Lines end at a byte 0x0A whatever the encoding of the pattern.', 'What the decoders make of the bytes of UTF-8 and UTF-16 is decided by C16.', 'The hash table of the histogram is explored with concrete texts.'])
check('C18',
    jobs=[dict(harness='c18', cmd=True, args=dict(quick='--n 3 --gen 10 --singles 6 --seed $SEED', thorough='--n 5 --gen 120 --singles 1 --seed $SEED'), covers=['one block', 'several blocks', 'hit', 'failed read'], budget=dict(quick=6, thorough=40), validate=['native', 'asan'])],
    total=dict(quick=100, thorough=720),
    bounds=dict(quick='every file of up to 3 bytes, every block size up to 5, own blocks surrounded by inaccessible memory, the blocking reader with its asynchronous read done at once or when waited for and any of the first three reads failing, and the mapped reader; curated sets, a sixth of the curated patterns and 10 generated sets', thorough='every file of up to 5 bytes, all curated patterns and 120 generated sets'),
    assumptions=[UB, 'fopen, fread, ferror, setbuf, fclose, std::async and the classes of Boost.Interprocess are stand-ins; an asynchronous read runs as a whole, at its start or when it is waited for.', 'Recursion into directories and the parsing of the command line are not covered.'])
check('C23',
    jobs=[dict(harness='c23', args=dict(quick='--gen 20 --len 2 --full 0 --seed $SEED', thorough='--gen 300 --len 3 --full 1 --seed $SEED'), covers=['hits', 'no hits', 'error', 'added', 'not added', 'not parsed', 'destroyed', 'parsed', 'refused'], budget=dict(quick=10, thorough=60))],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='allocations during a long text made of repetitions of every word of up to 2 bytes, against those of a shorter one, for curated sets and patterns and 20 generated sets with bounded repetitions; every text in the gaps of 16 patterns and pattern lists with every order of destroying the handles; repeated failures of 23 pattern templates and 30 pairs of encoding template and pattern: all that was allocated is released', thorough='words of up to 3 bytes, 300 generated sets, more templates and orders'),
    assumptions=[UB, 'Memory kept by ICU and the C++ library for the whole process is not counted: everything is used once beforehand.', 'The texts searched for growth are concrete repetitions of a symbolic word.'])
check('C24',
    jobs=[dict(harness='c24', args=dict(quick='--full 0 --steps 3', thorough='--full 1 --steps 4'), covers=['chain accepted', 'chain refused', 'not encodable', 'name known', 'name unknown', 'decoder refused', 'decoder found', 'added', 'not added', 'not parsed', 'program', 'null'], budget=dict(quick=10, thorough=100), validate=['native', 'asan'])],
    total=dict(quick=110, thorough=720),
    bounds=dict(quick='every byte (or two) in the gaps of encoding chains and names, with and without an error pointer; every sequence of up to 3 calls (parse a pattern out of a good and a bad one, add it with a good and a bad chain, create a program)', thorough='one more byte per gap, sequences of up to 4 calls'),
    assumptions=[UB, 'Null handles and option pointers are outside the documented use.'])
check('C22',
    jobs=[dict(harness='c22', args=dict(quick='--n 1 --loops 1 --singles 2 --gen 20 --seed $SEED', thorough='--n 2 --loops 2 --singles 1 --gen 200 --seed $SEED'), covers=['none', 'samples', 'several bytes'], budget=dict(quick=6, thorough=30))],
    total=dict(quick=100, thorough=720),
    bounds=dict(quick='one walk with one visit of each state, all choices, through the graphs of curated sets, half of the curated patterns and 20 generated sets, as built and determinized; of the bytes of a transition, all up to eight, else the first, the last and the middle one', thorough='up to two walks with up to two visits, all curated patterns and 200 generated sets'),
    assumptions=[UB, 'The random number classes of the C++ library are stand-ins whose values are chosen by the engine.'])
