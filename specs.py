"""One entry per property: the text for properties.jsonl, the manifest text and the harness spec used by run_check.py.
`python3 gen.py` writes properties.jsonl and MANIFEST.json from this file."""
def H(src, variant, shards=8, **kw):
    return dict(src=src, variant=variant, shards=shards, **kw)
SPECS = {}
SAN = "Clang AddressSanitizer+UBSan+LeakSanitizer (halting) plus "
INC = "include/cybozu/"
BENCHW = ["-Wl,--wrap=clock_gettime,--wrap=gettimeofday"]
def P(pid, title, statement, over, text, why, files, mech, technique, rule, harness, expect=(), note="", assumptions=(), observe=(), **kw):
    assert len(title) <= 80, (pid, len(title))
    SPECS[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=[(INC + f if "/" not in f or f.startswith("nlp/") else f) for f in files.split()],
        mech=[dict(name=n, where=w) for n, w in mech], technique=technique, rule=rule, harness=harness, expect=list(expect), note=note, assumptions=list(assumptions), observe=list(observe), **kw)

P("C01", "UTF-8/UTF-16 conversion accepts exactly valid Unicode and is lossless",
  "Decoding a byte or 16-bit sequence succeeds exactly when it is a valid UTF-8 (shortest form, no surrogates, at most U+10FFFF) or UTF-16 string, and then yields exactly the encoded code points; malformed input is refused through the documented error return and never read past its end. Encoding any Unicode scalar value gives its unique standard encoding, non-scalar values are refused, and converting UTF-8 to UTF-16 and back returns the original string.",
  "inputs", "every byte string, every 16-bit string and every 32-bit value offered as a code point",
  "The tests convert a few dozen hand-picked Japanese strings; acceptance of all malformed forms is a property of every byte sequence.",
  "string.hpp", [("GetCharFromUtf8 / AppendUtf8 / AppendUtf16", "include/cybozu/string.hpp"), ("ConvertUtf8ToUtf16 / ConvertUtf16ToUtf8", "include/cybozu/string.hpp")],
  SAN + "an independent Unicode reference decoder on every call, exact-size heap input buffers",
  "All 2^21 scalar/non-scalar values, all 3-byte and structured 4-byte sequences, random valid strings with 0-3 mutations; nontrivial = distinct input strings with at least one non-ASCII unit.",
  [H("c01_unicode.cpp", "asan")], expect=["byte sequences decoded", "code points checked", "ill-formed UTF-16 strings rejected", "ill-formed UTF-8 strings rejected", "out-of-range / edge integers checked", "well-formed UTF-16 strings accepted", "well-formed UTF-8 strings accepted", "long-inputs"])

P("C02", "String class behaves as a standard string of code points",
  "Every history of operations on the library's Unicode string object leaves it with the same content, size, return values and out-of-range exceptions as the same history on a standard string of the same characters, including operations whose argument is a part of the string itself. Conversions from and to UTF-8 performed by construction, assignment, append and output agree with its content.",
  "histories inputs", "every sequence of string operations with every argument, including aliasing ones",
  "The tests call each member once or twice with short literals; agreement must hold for all operation histories and positions.",
  "string.hpp", [("StringT members forwarding to the wrapped standard string", "include/cybozu/string.hpp")],
  SAN + "a lock-step model (standard string) compared after every operation of random histories",
  "Random histories of 1-60 operations over ~45 member functions with edge positions and self-aliasing arguments; nontrivial = distinct (operation, resulting content) pairs.",
  [H("c02_string.cpp", "asan")], expect=["ctor", "append-str", "assign-sub", "erase", "insert-ptr", "replace-str", "self-append", "self-assign-sub", "swap", "resize", "move-ctor", "long-inputs"])

P("C03", "Trimming, splitting, joining and case-insensitive search follow their spec",
  "For every string and separator, trimming removes exactly the leading/trailing characters selected and nothing else, splitting yields exactly the pieces between separators (at most the requested number, the last one holding the rest) so that joining restores the input, and case conversion, comparison and search agree with character-by-character ASCII case folding. No operation reads outside the range it is given, whatever bytes it holds.",
  "inputs", "all byte strings and code point strings, separators, limits and search targets",
  "The tests use a handful of fixed strings; boundary positions and non-ASCII bytes form an unbounded input space.",
  "string_operation.hpp", [("Trim / Split / Strip / ToLower / CaseCompare / CaseFind", "include/cybozu/string_operation.hpp")],
  SAN + "reference re-implementations evaluated on every call, exact-size heap ranges",
  "Random strings over separator-heavy alphabets for byte and code point strings; nontrivial = distinct inputs for which the operation changes or finds something.",
  [H("c03_strop.cpp", "asan")], expect=["case", "cmp-eq", "cmp-ne", "find-hit", "find-miss", "split", "split-many", "trim", "long-inputs"])

P("C04", "Decimal/hex text converts to integers and back exactly or is refused",
  "Parsing decimal or hexadecimal text into any integer type returns the mathematically denoted value exactly when the whole text is a well-formed number representable in that type, and otherwise reports failure (exception, or cleared flag when a flag is supplied) without reading past the given length. Formatting any integer in decimal, hexadecimal (either case, with padding) or binary denotes that integer exactly, and parsing the formatted text returns it.",
  "inputs", "all texts with or without explicit length, all integer types and all values",
  "The tests check boundary literals for some types only; all texts around every overflow boundary and all lengths must be right.",
  "atoi.hpp itoa.hpp exception.hpp", [("cybozu::atoi / hextoi overflow checks", "include/cybozu/atoi.hpp"), ("itoa / itohex / itobin", "include/cybozu/itoa.hpp")],
  SAN + "an arbitrary-precision reference parser/formatter, exact-size unterminated buffers",
  "Numbers near every type boundary and power of 10/16, with sign/space/garbage mutations; nontrivial = distinct texts or distinct (type,value) pairs.",
  [H("c04_int.cpp", "asan")], expect=["accepted", "fit", "format", "rejected", "long-inputs"])

P("C05", "Serialized objects load back equal; corrupt input never corrupts memory",
  "Saving any supported value (integers, floats, booleans, strings, vectors, lists, sets, maps, nested combinations and user types) and loading it, into a fresh or a previously used object, gives an equal value, consuming exactly the bytes that were written, also when several values share a stream. Loading truncated or arbitrary bytes either yields some value or throws; it never touches invalid memory, and a truncated stream is always reported.",
  "inputs histories", "all values of all supported types, all streams delivering bytes in any portions, all byte strings offered for loading",
  "The tests round-trip a few values through one stream; they never use truncated, corrupted or dribbled streams or reused targets.",
  "serializer.hpp stream.hpp", [("saveInteger / loadInteger variable-length encoding", "include/cybozu/serializer.hpp"), ("loadPodVec / loadRange size checks", "include/cybozu/serializer.hpp")],
  SAN + "round-trip, byte-accounting and truncation monitors over dribbling and counting streams, bounded allocator",
  "Random nested values of 20 types, edge integers, truncations at every prefix, random corruptions; both integer encodings are built; nontrivial = distinct serialized images.",
  [H("c05_serial.cpp", "asan", flags=["-fno-sanitize=float-cast-overflow"]), H("c05_serial.cpp", "asan", shards=4, flags=["-fno-sanitize=float-cast-overflow", "-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER"], scale=0.3)], expect=["corrupt-accepted", "corrupt-rejected", "format", "large", "podvec", "resaved", "roundtrip", "sequence", "truncated"])

P("C06", "Byte streams and line reader deliver every byte once and in order",
  "Memory, string and standard streams return exactly the bytes written to them, in order and each once, for every sequence of read and write sizes; exact-size reads and writes either transfer everything or throw, and a memory stream never writes beyond its capacity. The line reader yields exactly the lines of the input (LF or CRLF ended, last one with or without terminator), independent of how the underlying stream chunks its data, and throws exactly when a line exceeds the configured maximum.",
  "inputs histories", "all byte contents, all chunkings of the underlying stream, all request sizes and size limits",
  "The tests use streams that always deliver fully and lines that fit one buffer; boundaries inside CRLF and at buffer edges are not visited.",
  "stream.hpp line_stream.hpp", [("readSome / read / write / getPos", "include/cybozu/stream.hpp"), ("LineStreamT::next", "include/cybozu/line_stream.hpp")],
  SAN + "a conservation/order checker over every byte, adversarially chunking streams",
  "Random operation histories and line inputs dense in CR/LF with random chunk and buffer sizes; nontrivial = distinct (content, chunking) pairs.",
  [H("c06_stream.cpp", "asan")], expect=["drained", "istream", "istream-eof", "lines", "mem-out", "memory", "ostream-out", "shortread", "split", "str-out", "string", "too-long", "user-out", "long-inputs"])

P("C07", "Base64 encoding is standard, and decoding inverts it or fails loudly",
  "For every byte string and every chunking of input and output, the encoder produces the standard base64 text (line-wrapped as configured) and the decoder returns the original bytes. Characters outside the alphabet are ignored when decoding, any byte string is decoded without touching memory outside the buffers, and an invalid line width is refused.",
  "inputs", "all byte strings, line widths, chunk sizes, and all byte strings offered to the decoder",
  "The tests encode a few literals in one go; chunk boundaries inside a group and invalid texts are an unbounded space.",
  "base64.hpp", [("Base64Encoder::write/flush", "include/cybozu/base64.hpp"), ("Base64Decoder::readSome", "include/cybozu/base64.hpp")],
  SAN + "OpenSSL as independent encoder/decoder oracle, chunking and prefix monitors",
  "Random data of 0-600 bytes with random chunkings and line widths, mutated and garbage texts; nontrivial = distinct encoded texts.",
  [H("c07_base64.cpp", "asan", libs=["-lcrypto"])], expect=["decoder-chunks", "garbage", "padded", "roundtrip", "long-inputs"])

P("C08", "CSV fields survive writing and reading whatever bytes they hold",
  "Rows of fields holding arbitrary bytes (separators, quotes, LF, NUL, non-ASCII; CR alone is documented to be dropped) written by the CSV writer are read back by the CSV reader as the same rows with the same fields, for every separator and row terminator. The reader splits any text by the quoting rules independently of file size, returns a last row that has no terminator, reports unbalanced or misplaced quotes, and enforces its size limit per row only.",
  "inputs configurations", "all field contents, row shapes, separators and files",
  "The tests write three rows of printable text; special bytes, empty trailing fields and limits are not covered.",
  "csv.hpp", [("CsvWriter::write quoting", "include/cybozu/csv.hpp"), ("CsvReader::read state machine", "include/cybozu/csv.hpp")],
  SAN + "round-trip monitor and an independent grammar-based reference reader",
  "Random tables over quote/separator/newline-heavy alphabets, random dialect text, limits at the boundary; nontrivial = distinct files with at least one special character.",
  [H("c08_csv.cpp", "asan")], expect=["end", "fields", "file", "limit-hit", "limit-ok", "rejected", "rows", "long-inputs"])

P("C09", "Config files parse to exactly the stated keys and values, or are refused",
  "Loading a configuration gives exactly the sections and key/value pairs its lines state (comments and empty lines ignored, LF or CRLF ends, blanks after the key dropped, the text after the first equals sign kept verbatim), and malformed lines or names and duplicate keys are reported as errors. Typed access returns exactly the integer or string stated or throws, never a silently truncated value, and a default only for an absent key; printing and reloading a configuration preserves every pair.",
  "inputs", "all configuration texts, keys, values and requested types",
  "The tests load one good and some bad lines; the set of malformed lines and out-of-range values is unbounded.",
  "config.hpp atoi.hpp", [("Config::load / append key validation", "include/cybozu/config.hpp"), ("Config::get conversions", "include/cybozu/config.hpp")],
  SAN + "an independent reference parser compared pair by pair, typed-access oracle",
  "Random well-formed and mutated configuration texts, numeric values near type limits; nontrivial = distinct texts that define or reject something.",
  [H("c09_config.cpp", "asan")], expect=["accepted", "built", "int-bad", "int-ok", "rejected", "reloaded", "values", "long-inputs"])

P("C10", "XML parsing builds the stated tree; hostile documents fail safely",
  "Parsing a document of the supported XML subset builds exactly the tree it states: element names, attributes, text, order and parent links, in all equivalent spellings of blanks, quotes and empty elements, printing a parsed tree and parsing it again gives the same tree, and unescaping escaped text restores it. Any other byte string is either parsed or rejected by an exception within time bounded by its size, without invalid memory access or leaks, also when one parser object is reused.",
  "inputs histories", "all generated trees and spellings, all mutated and random byte strings, parser reuse",
  "The tests parse three fixed documents; malformed nesting, truncation and alternative spellings are unbounded.",
  "minixml.hpp", [("MiniXml::parse tag state machine", "include/cybozu/minixml.hpp"), ("encode/decode escapes", "include/cybozu/minixml.hpp")],
  SAN + "generated tree vs parsed tree comparison, mutation fuzzing of documents in exact-size buffers, leak detection",
  "Random trees (depth up to 4) in random spellings, byte mutations/truncations of them, deep documents; nontrivial = distinct documents.",
  [H("c10_xml.cpp", "asan")], expect=["deep", "docs", "found", "hostile-accepted", "hostile-rejected", "malformed-rejected", "nodes", "truncated", "long-inputs"])

P("C11", "Compression is standard zlib/gzip and decompression inverts it or fails",
  "For every byte string, level, format and chunking, the compressor emits a standard zlib or gzip stream and the decompressor returns the original bytes, from its own output as from any standard stream including optional gzip header fields. A truncated, corrupted or non-conforming stream is reported by an exception, never returned as complete data, and one-shot calls never write beyond the caller's buffer.",
  "inputs configurations", "all contents, levels, buffer sizes, chunkings, truncation points and corruptions",
  "The tests round-trip a few short texts with one chunking; corruption and truncation at every point and header variants are not covered.",
  "zlib.hpp", [("ZlibCompressorT::write/flush", "include/cybozu/zlib.hpp"), ("ZlibDecompressorT::readSome and gzip header/trailer", "include/cybozu/zlib.hpp")],
  SAN + "libz as differential oracle for every stream, accepted or rejected; byte-conservation monitor",
  "Random contents, levels, buffer sizes (1..2048) and chunkings, foreign streams with all header flags, truncations and 1-3 byte corruptions; nontrivial = distinct compressed streams.",
  [H("c11_zlib.cpp", "asan", libs=["-lz"])], expect=["gzip-roundtrip", "zlib-roundtrip", "truncated", "foreign-gzip", "corrupt-detected", "corrupt-harmless", "bad-header", "sink-error"])

P("C12", "Bit vectors behave as a sequence of bits under every operation history",
  "After any sequence of set, reset, resize, append (of words, blocks, other vectors or itself), initialisation, extraction and copying, a bit vector holds exactly the bits the same history gives a plain sequence of booleans, newly exposed bits are zero, and two vectors compare equal exactly when size and bits are equal. Out-of-range positions are refused, and source words beyond the stated bit length are never read nor have an effect.",
  "histories inputs", "all operation sequences, word widths (8 to 64 bits), lengths and positions relative to word boundaries",
  "The tests append and extract a few fixed patterns; alignment of both sides to word boundaries and dirty source bits are a large product space.",
  "bitvector.hpp", [("BitVectorT append/extract shifting", "include/cybozu/bitvector.hpp")],
  SAN + "lock-step model (sequence of booleans) compared bit by bit after every operation",
  "Random histories of 1-25 operations for 4 word types with dirty padding bits in exact-size buffers; nontrivial = distinct (operation, content) states.",
  [H("c12_bitvector.cpp", "asan")], expect=["op", "extract", "extract-refused", "block", "long"])

P("C13", "Succinct bit vectors answer rank, select and get exactly",
  "For every bit sequence, the plain and compressed succinct vectors report exactly its size, its number of ones and zeros, each bit, the number of ones or zeros before every position, and (plain) the position of every k-th one or zero, with a not-found answer beyond the last one. This holds for vectors of any length including beyond 2^32 bits, however they are built, after re-initialising a used object, and after saving and loading.",
  "inputs histories", "all bit sequences (dense, sparse, long runs, any length relative to word, block and sampling boundaries) and all query positions",
  "The tests query small random vectors whose length is a multiple of the word size; sampling boundaries, padding, long runs and wide counters are not reached.",
  "sucvector.hpp csucvector.hpp select8.hpp bit_operation.hpp", [("SucVectorT rank1/selectSub", "include/cybozu/sucvector.hpp"), ("CSucVector encoding and block index", "include/cybozu/csucvector.hpp"), ("select8 table", "include/cybozu/select8.hpp")],
  SAN + "prefix-sum oracle for every position of every generated vector, plus a >2^32-bit optimised run with a closed-form oracle",
  "Random/structured vectors up to 50000 bits with all positions and ranks queried; one 4.5e9-bit vector; nontrivial = distinct bit sequences and distinct big positions.",
  [H("c13_sucvector.cpp", "asan"), H("c13_sucvector.cpp", "opt", shards=1, flags=["-DVF_BIG"])], expect=["ranked", "selected", "loaded", "c-loaded", "words", "big-rank", "big-select", "long"])

P("C14", "Wavelet matrix queries equal naive counting over the sequence",
  "For every sequence of small integers, the wavelet matrix returns each element, the number of occurrences of a value and of smaller values before every position, and the position of the k-th occurrence (or not found) exactly as a scan of the sequence would. This also holds after re-initialising, copying and saving and loading the structure.",
  "inputs histories", "all sequences, value widths from 1 to 16 bits, values, positions and ranks",
  "The tests compare one random sequence; skewed value distributions, sampling boundaries and reuse are not covered.",
  "wavelet_matrix.hpp sucvector.hpp bitvector.hpp", [("WaveletMatrixT rank/rankLt/select/get", "include/cybozu/wavelet_matrix.hpp")],
  SAN + "online naive counters compared at every queried position",
  "Random, constant, skewed and sorted sequences up to 3000 elements with widths 1-16 bits and 8 probe values each; nontrivial = distinct sequences.",
  [H("c14_wavelet.cpp", "asan"), H("c14_wavelet.cpp", "asan", shards=4, flags=["-DCYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT"], scale=0.3)], expect=["rank", "get", "select", "loaded", "wide", "long"])

P("C15", "Full-text search finds exactly the occurrences of every key",
  "For every text and non-empty key over a supported alphabet, the index reports exactly the number and the set of positions at which the key occurs, and reconstructs the text preceding any match, for every sampling rate, after re-initialisation, copying, and saving and loading. The suffix array, the transform behind it and the frequency tables (counts, ranking by frequency, index/element bijection) are exact for every sequence.",
  "inputs histories configurations", "all texts (repetitive, constant, random, any alphabet up to the limit), keys, sampling rates",
  "The tests search fixed keys in one text; repetitive texts, full alphabets, reuse and copies are not covered.",
  "fmindex.hpp frequency.hpp include/sais.hxx wavelet_matrix.hpp", [("FMindexT::init/getRange/convertPosition", "include/cybozu/fmindex.hpp"), ("suffix sorting", "include/sais.hxx"), ("Frequency tables", "include/cybozu/frequency.hpp")],
  SAN + "brute-force substring search, sorted suffixes and counting maps as oracles",
  "Random/periodic/constant texts up to 800 symbols with 25 keys each, 5 alphabet types; nontrivial = distinct texts.",
  [H("c15_fmindex.cpp", "asan"), H("c15_fmindex.cpp", "asan", shards=4, flags=["-DCYBOZU_FMINDEX_USE_CSUCVECTOR"], scale=0.2)], expect=["hit", "miss", "positions", "loaded", "sais", "bwt", "freq", "alphabet", "long", "long-freq"])

P("C16", "Bit, byte-order and 128-bit vector primitives compute exactly their result",
  "For every operand, bit scan, population count and bit mask agree with the bit-by-bit definition, byte-order accessors read and write exactly the bytes of the value in the named order at any address, and each 128-bit vector operation gives in every lane the documented result.",
  "inputs", "all 8- to 64-bit words, all addresses, all 128-bit operands and all shift/shuffle amounts",
  "The tests use a few words and no vector operation at all; these primitives underlie the succinct structures, digests and codecs.",
  "bit_operation.hpp endian.hpp v128.hpp", [("bsf / bsr / popcnt / makeBitMask64", "include/cybozu/bit_operation.hpp"), ("Get/Set 16/32/64bit as LE/BE", "include/cybozu/endian.hpp"), ("V128 lane operations", "include/cybozu/v128.hpp")],
  SAN + "bit-by-bit and lane-by-lane reference evaluation of every call, unaligned exact-size buffers",
  "Random words biased to single bits, runs and boundary bytes; all shift amounts 0-63 and byte counts 0-15 instantiated; nontrivial = distinct operands.",
  [H("c16_word.cpp", "asan", flags=["-msse4.2"])], expect=["scan", "popcnt", "endian", "lane"])

P("C17", "Aligned and scoped arrays keep contents, alignment and ownership",
  "Every history of constructing, resizing, clearing, copying, moving, swapping and writing arrays leaves each with exactly the elements a plain sequence would have (new elements zero unless the caller declines), aligned as promised and not shared with its copies. A failed allocation throws and leaves the array with its previous size and contents, and memory and elements are released exactly once.",
  "histories faults", "all operation histories over several arrays, element types and alignments, with allocation failure at any point",
  "The tests resize and copy once; capacity reuse after shrink, moved-from reuse and failed allocations are histories they do not build.",
  "array.hpp", [("AlignedArray resize/allocCopy/operator=", "include/cybozu/array.hpp"), ("ScopedArray ownership", "include/cybozu/array.hpp")],
  SAN + "lock-step model with injected allocation failures",
  "Random histories of 1-30 operations over 3 arrays for 6 (type, alignment, clear) configurations, failures injected in 1 of 6 operations; nontrivial = distinct (operation, content) states.",
  [H("c17_array.cpp", "asan")], expect=["op", "alloc-refused", "scoped", "malloc", "huge", "long-inputs"])

P("C18", "Digests, HMAC, SipHash and FNV equal their standard definitions",
  "For every message, however it is split into updates, and of any length, each digest object yields the standard SHA-1/SHA-2 value in every build configuration (built-in or OpenSSL-backed), can be reused after clearing or finishing, and a copy taken midway continues independently. HMAC for every key and message length, keyed SipHash-2-4 and the FNV hashes likewise equal their definitions, and a too small output buffer is refused untouched.",
  "inputs histories configurations", "all messages, chunkings, key lengths, object histories and the three build configurations",
  "The tests hash a few short vectors; block-boundary lengths, odd chunkings, bit counts above 32 bits and copies are not exercised.",
  "sha1.hpp sha2.hpp crypto.hpp siphash.hpp hash.hpp", [("Sha1 / Sha256 / Sha512 update and padding", "include/cybozu/sha2.hpp"), ("crypto::Hash, Hmac", "include/cybozu/crypto.hpp"), ("siphash24", "include/cybozu/siphash.hpp")],
  SAN + "OpenSSL one-shot digests, a definition-level HMAC and SipHash as oracles, three build configurations, exact-size buffers",
  "Lengths biased to padding boundaries, 4 chunking styles, >2^29-byte messages; nontrivial = distinct messages.",
  [H("c18_digest.cpp", "asan", libs=["-lcrypto"], flags=["-DCYBOZU_DONT_USE_OPENSSL"]), H("c18_digest.cpp", "asan", libs=["-lcrypto"], shards=4, scale=0.5), H("c18_digest.cpp", "asan", libs=["-lcrypto"], shards=4, scale=0.3, flags=["-DCYBOZU_USE_OPENSSL_NEW_HASH=0", "-Wno-deprecated-declarations"]), H("c18_digest.cpp", "opt", libs=["-lcrypto"], shards=2, flags=["-DCYBOZU_DONT_USE_OPENSSL", "-DVF_BIG"])],
  expect=["sha2", "sha1", "copy", "hash", "hash-copy", "hmac", "siphash", "fnv", "big", "long-inputs"])

P("C19", "AES cipher objects encrypt and decrypt exactly as specified",
  "For every key, initialisation vector and message, however it is split into updates, the cipher object produces exactly the AES ECB/CBC (optionally padded) ciphertext, and decrypting restores the message. Wrong key or vector lengths, incomplete blocks and invalid padding are reported as errors without reading outside the arguments, and the object can be set up again or copied midway with independent state.",
  "inputs histories", "all keys, vectors, messages, chunkings, corruptions and reuse histories for the six cipher/mode pairs",
  "No test uses the cipher class at all.",
  "crypto.hpp", [("crypto::Cipher setup/update/finalize", "include/cybozu/crypto.hpp")],
  SAN + "textbook CBC/ECB/PKCS7 over the raw AES block function as oracle, exact-size buffers",
  "Random messages of 0-130 bytes, 4 chunking styles, truncated and bit-flipped ciphertexts, wrong lengths; nontrivial = distinct (key, message) pairs.",
  [H("c19_cipher.cpp", "asan", libs=["-lcrypto"])], expect=["encrypt", "partial", "copy", "roundtrip", "unpad", "badpad", "keylen", "ivlen", "long-inputs"])

P("C20", "Random generators follow their recurrences; shuffles are permutations",
  "For every seed the pseudo-random generators produce exactly the published sequence, through every accessor and split of reads, so runs are reproducible and copies continue independently; uniform and normal variates have the requested range, mean and deviation whatever the seed. Operating-system randomness fills exactly the requested buffer or reports failure, and shuffling yields a permutation, each about equally likely.",
  "inputs histories faults", "all seeds, interleavings of accessors, request sizes, short reads or failures of the random device",
  "The tests compare one default-seeded sequence; seeded variants, partial words, huge requests and device failures are not covered.",
  "xorshift.hpp pcg.hpp random_generator.hpp nlp/random.hpp", [("XorShift/XorShift128Plus/Xoroshiro128Plus get and read", "include/cybozu/xorshift.hpp"), ("Pcg32", "include/cybozu/pcg.hpp"), ("RandomGenerator::read, shuffle", "include/cybozu/random_generator.hpp"), ("UniformRandomGenerator / NormalRandomGenerator", "include/cybozu/nlp/random.hpp")],
  SAN + "reference recurrences in lock-step, fault-injecting fread/fopen stand-ins, wide statistical bounds (8 sigma)",
  "Random and degenerate seeds with random accessor interleavings, short reads at every length, >2 GiB requests; nontrivial = distinct seed pairs and contents.",
  [H("c20_random.cpp", "asan"), H("c20_random.cpp", "asan", shards=2, flags=["-DCYBOZU_DONT_USE_EXCEPTION"], scale=0.2)], expect=["os-noexc", "stream", "pcg", "uniform", "normal", "os-read", "os-short", "os-big", "shuffle", "shuffle-uniform"])

P("C21", "Time text and printf-style formatting convert exactly or are refused",
  "Parsing a time text succeeds exactly for the documented date-time forms and yields the denoted UTC second and millisecond, otherwise it reports failure, leaves the object unchanged and reads nothing past the text. Printing, comparison, FILETIME conversion and second arithmetic agree with calendar arithmetic and invert parsing, and the format function yields exactly the C formatting of its arguments at any length.",
  "inputs", "all texts near the documented forms, all times from 1970 to 2999, all formatted arguments",
  "The tests parse about ten fixed strings; malformed variants, unterminated buffers and the calendar's edge days are unbounded.",
  "time.hpp format.hpp", [("Time::fromString / toString", "include/cybozu/time.hpp"), ("vformat", "include/cybozu/format.hpp")],
  SAN + "an independent grammar and days-from-civil arithmetic as oracle, exact-size unterminated buffers",
  "Edge-biased dates in all documented forms with 0-2 mutations; nontrivial = distinct texts and distinct instants. Days beyond the month length and years above 2999 are not claimed.",
  [H("c21_time.cpp", "asan")], expect=["accepted", "refused", "printed", "filetime", "now", "format", "long-inputs"])

P("C22", "Command line parser assigns exactly the given values or reports an error",
  "For every declaration of options and parameters and every argument list, parsing succeeds exactly when each argument is a declared option with well-formed in-range values (including 0x and k/m/g/K/M/G forms) or a wanted parameter and nothing mandatory is missing. Then every variable holds the value given last (vectors: all, in order), or its default when not given, the set/not-set query agrees, and parsing stops at a delimiter handing over exactly the remaining arguments.",
  "inputs configurations", "all option declarations over 14 value kinds and all argument lists, including malformed, repeated, negative-number and delimiter-like arguments",
  "The tests use some fixed declarations with well-formed arguments; combinations of kinds, positions and malformed values are unbounded.",
  "option.hpp atoi.hpp", [("Option::parse", "include/cybozu/option.hpp"), ("convertInt suffix and range handling", "include/cybozu/option.hpp"), ("Option::isSet", "include/cybozu/option.hpp")],
  SAN + "an independent grammar model deciding acceptance and all resulting values; output and exit captured",
  "Random declarations (0-6 options, 0-2 parameters, optional/variable tail, 0-2 delimiters) with edge-biased arguments; nontrivial = distinct (declaration, argument list) pairs. Trailing text after a floating-point or valued-bool argument is not claimed.",
  [H("c22_option.cpp", "asan")], expect=["accepted", "refused", "delimiter", "help", "argc", "long-inputs"] + ["int", "int8", "uint8", "int16", "uint16", "uint32", "int64", "uint64", "str", "double", "flag", "vecint", "vecstr", "listint"])

WRAP = ["-Wl," + ",".join("--wrap=" + s for s in "read write close fdatasync fsync open open64 fstat fstat64 lseek lseek64 mmap mmap64 readdir readdir64".split())]
P("C23", "Files hold exactly what was written, under short and interrupted I/O",
  "For every sequence of writes, whatever portions the operating system accepts and however often calls are interrupted, the file afterwards holds exactly the old content (append) or nothing (truncate) followed by the written bytes (and whatever others appended meanwhile), and reads and seeks return exactly the bytes at their position; a read beyond the end or a failing call throws and never hangs. Every opened descriptor is released even when syncing, seeking or opening fails, descriptors handed in are left open, and the listing, rename, remove and name helpers do what their description says.",
  "histories faults inputs", "all write/read/seek histories, all placements of EINTR, short transfers and hard errors, all open modes, names and directory contents",
  "The tests write and read one small file without any fault; short transfers, interruptions, failing calls and end of file never occur.",
  "file.hpp", [("File::write / readSome / read", "include/cybozu/file.hpp"), ("File::open mode handling, destructor", "include/cybozu/file.hpp"), ("GetFileList / RenameFile / DoesFileExist", "include/cybozu/file.hpp")],
  SAN + "fault injection at the system-call boundary (link-time wrap), independent re-reading of the file and a census of open descriptors",
  "Random histories of up to 8 writes or 12 reads with EINTR/short/hard faults, all 32 open-mode combinations, random directories; nontrivial = distinct file contents and histories.",
  [H("c23_file.cpp", "asan", flags=WRAP + ["-Wl,--wrap=readlink"])], expect=["written", "read", "eof", "bad-mode", "handle", "names", "list", "rename"])

P("C24", "A mapped file shows exactly the file and is released",
  "Mapping any readable file, of any size including zero, page multiples and more than 4 GiB, exposes exactly its size and bytes for the life of the object, also after the file is unlinked, and the mapping disappears with the object. A missing file, a directory or a failing system call throws, and no descriptor stays open in any case.",
  "inputs faults", "all file sizes and contents and failures at each step of opening",
  "The test maps one fixed file; empty files, page boundaries, large files and failures are not exercised.",
  "mmap.hpp", [("Mmap constructor and destructor", "include/cybozu/mmap.hpp")],
  SAN + "comparison with independently written contents, injected open/fstat/mmap failures, census of descriptors and of /proc/self/maps",
  "Sizes around page boundaries, zero, tiny and 5 GiB sparse files; nontrivial = distinct contents.",
  [H("c24_mmap.cpp", "asan", flags=WRAP)], expect=["mapped", "empty", "large"])

NWRAP = WRAP + ["-Wl," + ",".join("--wrap=" + s for s in "socket bind listen setsockopt getsockopt accept connect select poll getaddrinfo freeaddrinfo recv send".split())]
P("C25", "Sockets carry every byte in order, report failures and own one descriptor",
  "Over any connection made with connect (with or without time limit) or bind/accept, the bytes written arrive complete and in order whatever portions the system transfers and however often calls are interrupted; read returns exactly the requested bytes or throws at the end of the stream, readSome returns 0 only there, and a broken connection or failing call is reported, never a signal, a hang or silent loss. Timeouts, buffer sizes, linger, address families and addresses behave as set. A failed connect, bind or accept leaves the object closed and reusable, and through any sequence of moves, accepts and closes each connection is owned by exactly one object and closed exactly once.",
  "histories faults inputs", "all transfer sizes and splits, all placements of EINTR, short transfers and failing calls, all move/accept/close histories, all IPv4/IPv6 addresses",
  "The test makes one connection and sends a few bytes; partial transfers, interruptions, refused connections, reuse after failure and ownership histories never occur in it.",
  "socket.hpp", [("Socket::read/readSome/write/waitForClose", "include/cybozu/socket.hpp"), ("Socket::connect/bind/accept/queryAccept", "include/cybozu/socket.hpp"), ("Socket move/close", "include/cybozu/socket.hpp"), ("SocketAddr", "include/cybozu/socket.hpp")],
  SAN + "loopback peers written with raw system calls, fault injection at the system-call boundary, descriptor census and an ownership model",
  "Random transfers up to 600 kB each way, end-of-stream, reset, time-limit and failure scenarios, ownership histories of up to 33 steps, random address pairs; nontrivial = distinct histories.",
  [H("c25_socket.cpp", "asan", flags=NWRAP)], expect=["transfer", "bytes", "eof", "drain", "broken-pipe", "waitForClose", "recv-timeout", "send-timeout", "queryAccept", "options", "linger", "connect-failure", "accept-reuse", "ownership", "same-addr", "different-addr", "bad-addr", "v4"])

P("C26", "The TLS client delivers exactly the peer's bytes or reports an error",
  "Over any TLS 1.2 or 1.3 connection, however the records and TCP segments are split and however often the client is interrupted by signals or other OpenSSL errors are pending in the thread, the peer receives exactly the bytes written and read/readSome return exactly the bytes the peer sent; end of stream is reported only after the peer closed properly, read beyond it throws instead of hanging, and a proper close succeeds and tells the peer. A connection that is refused, is not TLS, is cut or is altered at any byte ends in an exception and never delivers wrong or missing data as success; descriptors and TLS state are always released, and after close the same object can connect again.",
  "inputs schedules faults", "all transfer sizes and splits, all cut and corruption offsets in handshake and data, both protocol versions, all interruption times",
  "The repository has no automatic test for ssl.hpp beyond a sample needing the Internet.",
  "ssl.hpp", [("ClientSocket::connect/readSome/read/write/close", "include/cybozu/ssl.hpp")],
  SAN + "a raw OpenSSL server behind a fragmenting, cutting and corrupting proxy; end-to-end byte comparison, close-notify observation, signal storm, descriptor census",
  "Random transfers up to 120 kB, damage at random offsets; nontrivial = distinct exchanges. Certificate verification is not claimed: the class does not do any.",
  [H("c26_ssl.cpp", "asan", libs=["-lssl", "-lcrypto"])], expect=["exchange", "bytes", "eof", "close", "truncated", "damaged-stream", "damaged-handshake", "refused", "reused"])

P("C27", "Locks exclude, wakeups are never lost, events release one waiter per wakeup",
  "For every interleaving of threads, code under Mutex, CriticalSection or their scoped locks (also when left by an exception) runs one thread at a time and sees all earlier updates; a condition wait releases the lock while waiting and holds it on return, notifyOne lets a waiting thread proceed and notifyAll all of them, so queues built on them deliver each item exactly once in order and barriers always open. Event::wait returns only for a wakeup, each wakeup releases exactly one wait and is remembered until then, repeated wakeups before a wait count once, and data written before a wakeup is visible after the wait.",
  "schedules", "all interleavings of lock, wait, notify and wakeup by several threads",
  "The tests run one fixed two- or three-thread scenario each, without a race detector, mostly with sleeps that serialise the threads.",
  "mutex.hpp critical_section.hpp condition_variable.hpp condition_variable_cs.hpp event.hpp", [("Mutex/CriticalSection/AutoLock", "include/cybozu/mutex.hpp"), ("ConditionVariable", "include/cybozu/condition_variable.hpp"), ("Event", "include/cybozu/event.hpp")],
  "ThreadSanitizer and plain/ASan runs with random delays; occupancy counters, exactly-once and order checking of a bounded queue, barrier and ticket protocols, acknowledged wakeups, deadlock watchdog",
  "2-8 threads, hundreds of operations per case with random delays; nontrivial = distinct observed lock hand-over orders and deliveries.",
  [H("c27_sync.cpp", "tsan", shards=4), H("c27_sync.cpp", "asan", shards=4)], expect=["sections", "handovers", "items", "waits", "wakeups", "barrier-rounds", "tickets", "acknowledged", "merged", "ping-pong"])

P("C28", "Atomic operations are linearizable, conserve values and order memory",
  "Under every interleaving AtomicAdd, AtomicCompareExchange and AtomicExchange on 4- and 8-byte integers behave as if executed one at a time at some moment between call and return, with the documented result and never touching neighbouring memory: sums are exact, every exchanged value is handed over exactly once, a compare-exchange succeeds exactly when the old value matched. What a thread wrote before such an operation is visible to the thread that observes its effect, and mfence prevents a later load from overtaking an earlier store.",
  "schedules", "all interleavings of the operations by several threads",
  "The test calls each function once in a single thread, plus one counter run; histories and memory ordering are not observed.",
  "atomic.hpp", [("AtomicAdd/AtomicCompareExchange/AtomicExchange", "include/cybozu/atomic.hpp"), ("mfence", "include/cybozu/atomic.hpp")],
  "linearizability checker over recorded concurrent histories, conservation and monotonicity monitors, publication under ThreadSanitizer, store-buffer litmus test",
  "Histories of 2-4 threads with up to 28 operations, counters with thousands of operations, litmus runs of 30000 rounds; nontrivial = distinct overlapping histories.",
  [H("c28_atomic.cpp", "opt", shards=4), H("c28_atomic.cpp", "tsan", shards=4)], expect=["ops", "overlaps", "conserved", "published", "fence-11"])

P("C29", "Threads run exactly once per start and thread-local values stay private",
  "For every history of starting, joining and detaching thread objects, also from several threads at once and when the system refuses to create a thread, each successful start runs the entry exactly once, a join returns only after it finished and makes its results visible, and every handle is released exactly once; a failed start reports failure, runs nothing and leaves the object usable; destroying the object waits for its thread. A thread-local variable is null in every thread until that thread sets it, keeps each thread's own value, starts null again when re-created, and reports exhaustion. Sleep lasts at least the requested time even under signals, and the quit handler calls the application exactly once per signal, never inside another call of it, and interrupts a blocking call.",
  "histories schedules faults", "all start/join/detach histories and races between them, creation failures, thread-local usage patterns, signal times",
  "The tests start a few threads once and join them; failing creation, reuse, concurrent release and key reuse are not exercised.",
  "thread.hpp tls.hpp quit_signal_handler.hpp", [("ThreadBase / thread::Begin/Join/Detach", "include/cybozu/thread.hpp"), ("Tls", "include/cybozu/tls.hpp"), ("QuitSignalHandler", "include/cybozu/quit_signal_handler.hpp")],
  "ThreadSanitizer and ASan/UBSan runs; wrapped pthread_create/join/detach count and fail calls, model of each thread object's life cycle, per-thread value model, timing and signal counters",
  "Histories of up to 27 operations over 6 thread objects, 2-5 racing releases, 6x6 thread-local grids; nontrivial = distinct histories.",
  [H("c29_thread.cpp", "tsan", shards=4, flags=["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach"]), H("c29_thread.cpp", "asan", shards=4, flags=["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach"]), H("c29_thread.cpp", "opt", shards=2, flags=["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach"])], expect=["begins", "joins", "detach", "tls", "sleep", "signals", "tiny-stack"])

PTW = ["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach"]
P("C30", "parallel_for runs every index exactly once and returns when all is done",
  "For every range size, index type and thread count, parallel_for calls the body exactly once for each index, each worker number below min(threads, n) handling a contiguous ascending block with block sizes differing by at most one and never running two calls at once; it returns only after every call has ended, with all results visible. A body returning false ends only its own worker's block. An exception of any kind in a body (also with an empty message) is reported to the caller as cybozu::Exception, an empty range does nothing, zero threads and a failing thread creation throw, and no thread is left behind.",
  "inputs schedules faults", "all range sizes, thread counts, index types, stop and exception positions, creation failures and interleavings",
  "The test sums a few ranges without failures, early stop or a race detector.",
  "parallel.hpp", [("parallel_for", "include/cybozu/parallel.hpp"), ("parallel_util::Thread::threadEntry", "include/cybozu/parallel.hpp")],
  "ThreadSanitizer and ASan/UBSan runs; per-worker call logs checked against the exactly-once/contiguity specification, wrapped pthread_create/join with injected failures",
  "Ranges up to 3000 indices and 40 threads, six index types, random stops, exceptions and creation failures; nontrivial = distinct scenarios and block layouts.",
  [H("c30_parallel.cpp", "tsan", shards=4, flags=PTW), H("c30_parallel.cpp", "asan", shards=4, flags=PTW)], expect=["calls", "complete", "stopped", "exceptions", "creation-failure", "empty", "zero-threads", "results"])

SYW = ["-Wl,--wrap=fclose,--wrap=syslog,--wrap=__syslog_chk"]
P("C31", "The log holds every admitted message once, whole and in order",
  "For every history of log settings and messages and any number of logging threads, each message whose priority is at least the configured one appears exactly once, as one undivided line consisting of the time of the call, a space and the formatted text, in the file selected at that time and in each thread's order; it is readable there as soon as the call returns, and no other message appears. Opening a log file appends to it, a FILE given by the user is never closed, a file opened by the logger is closed when replaced, and a bad path throws leaving the logger as it was. With syslog on, the same messages go there with the corresponding priority; a failing device never makes the logging call throw and the message is shown on stderr.",
  "histories schedules faults inputs", "all histories of settings and messages, all message texts without NUL and newline, all interleavings of logging threads, failing devices",
  "The test prints a few messages to be looked at by eye.",
  "log.hpp", [("Logger::put", "include/cybozu/log.hpp"), ("Logger::openFile/set/closeFile", "include/cybozu/log.hpp"), ("PutLog / Log", "include/cybozu/log.hpp")],
  SAN + "ThreadSanitizer runs, model of each destination compared with the files re-read independently, wrapped syslog, descriptor census, /dev/full",
  "Histories of up to 44 steps over 5 files, 2-7 threads with up to 119 messages of up to 30 kB; nontrivial = distinct histories and thread interleavings.",
  [H("c31_log.cpp", "asan", shards=4, flags=SYW), H("c31_log.cpp", "tsan", shards=4, flags=SYW)], expect=["messages", "filtered", "lines", "syslog", "thread-lines", "switches", "write-error", "bad-path"])

P("C32", "A started process gets exactly its arguments and nothing else of the parent",
  "For every executable and argument list, Process::run starts the program with exactly those arguments, with no descriptor of the parent beyond stdin, stdout and stderr, these being /dev/null when closeStdio is set (even if they were closed in the parent) and the parent's own otherwise; isAlive is true until it ends and then gives its exit status, or -1 if it was killed. If the program cannot be started for any reason, also while signals arrive or the standard descriptors of the parent are closed, run returns false, and leaves no process, zombie, descriptor or duplicated buffered output behind. The handle belongs to one object at a time and moves with copies.",
  "inputs faults histories", "all argument texts, descriptor layouts, exit statuses and ways of failing to start, and signal times",
  "There is no test for process.hpp.",
  "process.hpp", [("process::Start", "include/cybozu/process.hpp"), ("process::IsAlive", "include/cybozu/process.hpp"), ("Process::run/move", "include/cybozu/process.hpp")],
  SAN + "a child program which reports the arguments and descriptors it sees; injected fork/pipe/exec failures, timer signals, zombie and descriptor census",
  "Up to 200 random arguments, up to 4 extra descriptors at random numbers, 7 kinds of failure; nontrivial = distinct child reports.",
  [H("c32_process.cpp", "asan", flags=["-Wl,--wrap=fork,--wrap=pipe"])], expect=["null-stdio", "kept-stdio", "alive", "killed", "descriptors-hidden", "moves", "failures", "closed-std-failures"])

P("C33", "Sparse vectors and score tables equal their plain definitions",
  "A SparseVector, with plain or compressed positions, holds exactly the pushed (position, value) pairs in ascending order through any history of pushes, iteration, clearing, copying, swapping and saving/loading, refuses positions out of order or out of range without changing, and corrupt saved data throws or yields a well-formed vector. Intersection, Union and InnerProduct of two vectors of any kinds equal their set definitions. TopScore always shows the best scores seen so far in descending order, the earlier first among equals, for every table size including 0 and 1 and however often it is looked at in between.",
  "histories inputs", "all histories of vector operations and position gaps, all pairs of vectors, all score sequences",
  "The tests use a handful of small vectors and one fixed score list; table sizes 0 and 1, reuse after getTable and setSize, encoding boundaries and corrupt data are not exercised.",
  "nlp/sparse.hpp nlp/top_score.hpp", [("SparseVector / CompressedPositionTbl", "include/cybozu/nlp/sparse.hpp"), ("Intersection / Union / InnerProduct", "include/cybozu/nlp/sparse.hpp"), ("TopScore::add", "include/cybozu/nlp/top_score.hpp")],
  SAN + "std::map models after every step and a stable-sort oracle for the score table",
  "Histories of up to 32 steps, gaps around 2^6, 2^14, 2^22 and up to 2^29, vectors of up to 300 entries, up to 60 table steps; nontrivial = distinct histories.",
  [H("c33_sparse.cpp", "asan")], expect=["entries", "refused", "reloads", "corrupt", "common", "united", "products", "tables", "scores", "long-inputs"])

P("C34", "Decomposition, topic learning and word weights equal their definitions",
  "For every matrix and rank, ComputeSVD gives factors of the documented shape with non-increasing non-negative values never above the true singular values, orthonormal columns and the projection of the matrix its algorithm states (the matrix itself at full row rank); matrices and vectors survive saving and loading to the printed precision, and damaged or mismatching files are refused. Plsi computes the EM iteration of its model (likelihood never falling for beta 1), its perplexity and its rankings equal the model's probabilities, it can be restarted, and unknown keys are refused. Document frequencies and tf-idf vectors equal direct counting, whatever the letter case, one vector per document that contains a keyword.",
  "inputs histories", "all matrices, ranks, matrix files, user/item data, iteration counts and documents",
  "The tests check one matrix for the SVD; file formats, pLSI and TF-IDF have no test.",
  "nlp/svd.hpp nlp/plsi.hpp nlp/tfidf.hpp", [("ComputeSVD / Load*/Save*", "include/cybozu/nlp/svd.hpp"), ("Plsi::step/search_items/similar_items", "include/cybozu/nlp/plsi.hpp"), ("Df / TfIdf", "include/cybozu/nlp/tfidf.hpp")],
  SAN + "independent long-double EM model, projection and singular-value bounds from another decomposition, direct counting of words, damaged files",
  "Matrices up to 12x12, up to 10 items and users with up to 4 classes and 6 steps, up to 14 documents; nontrivial = distinct matrices, data sets and collections.",
  [H("c34_nlp.cpp", "asan")], expect=["svd", "exact", "round-trips", "damaged", "unordered", "steps", "rankings", "df-words", "vectors"])

P("C35", "The test framework's verdict follows exactly from the assertions",
  "For every program of test modules, every assertion is counted once as ok or ng according to its meaning (exact bits for floating point, text for C strings, strict bound for NEAR, type and message for exceptions), each module runs exactly once in order and an exception in it is counted and stops only that module. The summary line shows the true numbers, every failing assertion is shown with its place, and the exit status is 0 only if nothing failed; a failing setup or teardown is reported and makes the status 1.",
  "inputs histories", "all programs of modules with any mix of holding and failing assertions, exceptions and failing setup or teardown",
  "The library's own tests always pass, so they never observe that a failure is noticed.",
  "test.hpp", [("AutoRun::run", "include/cybozu/test.hpp"), ("isEqual, CYBOZU_TEST_* macros", "include/cybozu/test.hpp")],
  SAN + "random test programs run in child processes; counters, output, order of execution and exit status compared with the computed truth",
  "Programs of up to 5 modules with up to 7 assertions of 13 kinds; nontrivial = distinct programs.",
  [H("c35_test.cpp", "asan")], expect=["assertions", "failing", "throwing", "summaries", "setup-errors"])

P("C36", "Exceptions, error numbers, environment and JSON values keep what was put in",
  "An Exception's text is its name followed by every streamed item after a colon, unchanged by reading, copying, assigning or throwing it, and copies are independent; ErrorNo keeps the error number of its construction and its text is the system's text with the number; environment lookups give exactly the variable's value, the default, or an exception naming the key. JSON values are deep: through any history of copies, assignments (also from inside itself) and swaps each holds exactly its own tree and all memory is released. Stack traces show at most 32 frames of the calling stack and names are demangled or left unchanged.",
  "inputs histories", "all item types and texts, error numbers, variable contents and value histories",
  "Only env.hpp has a test with two lookups.",
  "exception.hpp env.hpp json.hpp stacktrace.hpp", [("Exception::operator<< / what", "include/cybozu/exception.hpp"), ("ConvertErrorNoToString / ErrorNo", "include/cybozu/exception.hpp"), ("Json::Value", "include/cybozu/json.hpp"), ("StackTrace / Demangle", "include/cybozu/stacktrace.hpp")],
  SAN + "independent text and tree models compared after every step",
  "Up to 8 items per exception, error numbers over the whole int range, trees of depth 3 with histories of up to 22 steps; nontrivial = distinct texts and histories.",
  [H("c36_diag.cpp", "asan"), H("c36_diag.cpp", "tsan", scale=0.15, shards=4), H("c36_diag.cpp", "asan", shards=4, flags=["-DCYBOZU_EXCEPTION_WITH_STACKTRACE"], scale=0.2)], expect=["exceptions", "exception-traces", "errno", "errno-threads", "threads", "env", "missing", "trees", "nodes", "from-inside", "traces", "long-inputs"])

P("C37", "Regular expressions over String agree with the engine on plain text",
  "For every pattern, text, range and flags, searching, matching, replacing and iterating over a cybozu::String find exactly the matches, groups, positions, prefix and suffix, replacement text and tokens which the underlying regular expression engine finds in the same characters, however the expression was constructed; invalid patterns throw.",
  "inputs", "all patterns, texts, ranges, flags, replacement formats and token selections",
  "The tests use four patterns on one text each.",
  "regex.hpp", [("regex constructors", "include/cybozu/regex.hpp"), ("regex_search / regex_match / regex_replace", "include/cybozu/regex.hpp"), ("sregex_iterator / sregex_token_iterator", "include/cybozu/regex.hpp")],
  SAN + "differential runs against the engine on std::wstring with random patterns",
  "Random patterns of depth 4 with groups, classes and repetitions over texts of up to 24 characters including supplementary planes; nontrivial = distinct pattern/text pairs.",
  [H("c37_regex.cpp", "asan")], expect=["found", "matched", "replaced", "iterated", "tokens", "bad-pattern"])

P("C38", "Word splitting covers exactly the text of the given length",
  "For every UTF-8 text, given with or without a length (then followed by other text), the words visited by Mecab lie inside the text in order, cover everything but blanks, and are the same words that parse appends to the caller's container; a tagger that cannot be created throws.",
  "inputs", "all texts, with and without an explicit length",
  "The test visits one sentence.",
  "nlp/mecab.hpp", [("Mecab::parse/set/next", "include/cybozu/nlp/mecab.hpp")],
  SAN + "exact-size buffers, coverage of the text by the visited words and agreement of both interfaces",
  "Random texts of up to 15 pieces (words, kana, kanji, ASCII, blanks); nontrivial = distinct texts.",
  [H("c38_mecab.cpp", "asan", libs=["-lmecab"])], expect=["words", "nouns", "others", "bad-dictionary", "taggers"])

P("C39", "The benchmark clock sums the measured intervals and reports their mean",
  "For every history of begin, end, clear and copy, CpuClock holds exactly the number and the total duration, by the configured clock, of the intervals measured since the last clear, and put shows the given text and the mean per call in the matching unit, or hands exactly that mean to the callback. The bench macros call the function with its arguments exactly the requested number of times, or whole rounds until the time limit is exceeded or the rounds are used up, and leave the true clock and loop count.",
  "histories inputs", "every sequence of clock operations, every clock reading and every function measured",
  "The tests never look at the numbers measured; they depend on the clock, which must be scripted to be decided.",
  "benchmark.hpp", [("CpuClock::begin / end / put", "include/cybozu/benchmark.hpp"), ("CYBOZU_BENCH / CYBOZU_BENCH_T / CYBOZU_BENCH_C", "include/cybozu/benchmark.hpp")],
  SAN + "a scripted system clock behind link-time wrappers and a model recomputing sums, rounds and report text; real time stamp counter bracketed by independent readings",
  "Random clock histories under scripted clocks with steps from 0 to seconds, both system clocks and the time stamp counter built; nontrivial = distinct histories.",
  [H("c39_bench.cpp", "asan", shards=4, flags=BENCHW + ["-DCYBOZU_BENCH_DONT_USE_RDTSC"]), H("c39_bench.cpp", "asan", shards=2, flags=BENCHW), H("c39_bench.cpp", "asan", shards=2, flags=BENCHW + ["-DCYBOZU_BENCH_USE_GETTIMEOFDAY"])],
  expect=["interval", "put", "macro", "macro-T", "macro-C", "stopped-early"])
