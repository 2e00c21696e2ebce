def m(*pairs): return [dict(name=a, where="include/stdex/"+b) for a,b in pairs]

p("C01","Size arithmetic is exact or refuses",
 "Adding or multiplying two sizes returns the exact mathematical result, or throws an invalid-argument error exactly when that result does not fit in a size; rotating a 32-bit value left by n in 1..31 moves every bit n places cyclically; multiply-then-divide of 32-bit values returns the quotient of the full-width product.",
 ["inputs"],"every pair/triple of machine integers (non-zero divisor, quotient representable)",
 "math::add/mul tests try a handful of values; overflow happens on a measure-tiny boundary of 2^128 input pairs.",
 ["math.hpp"], m(("add/mul/rol/muldiv","math.hpp")))

p("C02","Hex encoding and decoding are inverse",
 "Encoding a block of bytes appends exactly two upper-case hexadecimal digits per byte, high nibble first, after whatever the output already held; decoding appends one byte per two hexadecimal digits of either case, skips every other character, stops at the first zero, keeps a pending half byte across calls, and reports 'last' exactly when the final character consumed completed a byte. Decoding what was encoded therefore returns the original bytes however the text is cut into pieces.",
 ["inputs","histories"],"every byte sequence, every text, every way of splitting either into consecutive calls",
 "No test exercises hex at all; splitting and length are unbounded.",
 ["hex.hpp"], m(("hex_enc::encode, hex_dec::decode","hex.hpp")))

p("C03","Base64 encoding and decoding are inverse (RFC 4648)",
 "Encoding emits the RFC 4648 base64 characters of the concatenation of all blocks given, keeping an incomplete triplet between calls and padding with '=' only on the last one; decoding emits the bytes of the concatenated text, ignoring characters outside the alphabet, ending at padding, and keeping an incomplete quartet between calls. Decoding an encoding returns the original bytes however either side is cut into consecutive calls.",
 ["inputs","histories"],"every byte sequence and text of any length, every split into consecutive calls",
 "No test covers base64; residue classes, splits and lengths multiply without bound.",
 ["base64.hpp"], m(("base64_enc::encode, base64_dec::decode","base64.hpp")))

p("C04","Base64 stream adapters lose and invent no bytes",
 "Everything written through the base64 writer reaches the underlying stream as the base64 text of the concatenated bytes (broken into lines of the requested length), and every read through the base64 reader returns consecutive bytes of the decoded stream and a count equal to the number of bytes it stored, until the decoded stream is exhausted.",
 ["inputs","histories"],"every content, every sequence of read/write sizes",
 "No test covers the base64 streams; the partial-block hand-over between reads depends on every combination of sizes.",
 ["base64.hpp"], m(("base64_writer::write, base64_reader::read","base64.hpp")))

p("C05","Byte swapping reverses bytes and is an involution",
 "Swapping the byte order of an 8, 16, 32 or 64-bit integer returns the value whose bytes are the argument's bytes in reverse order, in the by-value and in the in-place form, for signed and unsigned types; swapping twice returns the original.",
 ["inputs"],"every value of every integer width",
 "No test calls byteswap; the domain is 2^64 values.",
 ["endian.hpp"], m(("byteswap overloads","endian.hpp")))

p("C06","Ring hands over every item once, in order, within capacity",
 "Space offered to the producer is always free, contiguous and inside the ring, data offered to the consumer is always contiguous, previously pushed and not yet popped; push and pop move the boundaries by exactly the count given, the amount stored never exceeds the capacity, and once everything is popped the sync call does not wait.",
 ["histories","schedules"],"every reachable ring state at every lock acquisition, every count allowed by the protocol",
 "The ring test runs one producer and one consumer over one capacity and a random schedule; wrap-around/full/empty combinations are sampled only.",
 ["ring.hpp"], m(("back/push/front/pop/sync under m_mutex","ring.hpp")))

p("C07","Bounded vector queue behaves as a bounded deque",
 "A bounded vector queue behaves like a double-ended queue limited to its capacity: element i is the i-th oldest kept, pushing at either end when full drops the element at the opposite end, popping removes exactly one end, and copies and moves preserve the sequence.",
 ["histories","inputs"],"every capacity >= 1, every queue state and every operation on it",
 "No test covers the container; wrap positions times capacities are unbounded.",
 ["vector_queue.hpp"], m(("push_back/push_front/pop/at/copy/move","vector_queue.hpp")))

p("C08","Offset mapping translates by the last preceding anchor",
 "Translating a position through an anchor table strictly sorted by the side looked up uses the last anchor not after the position, returning the position shifted by that anchor's difference, in both directions; a position before the first anchor translates to itself but never past the first anchor's counterpart; an empty table translates every position to itself; and a search hint (any valid index) changes only the cost, never the result.",
 ["inputs"],"every sorted anchor table of any length, every position, every hint",
 "Only a few fixed tables appear indirectly in the sgml tests; table length and hint are unbounded.",
 ["mapping.hpp"], m(("dst2src/src2dst binary search","mapping.hpp")))

p("C09","Interval operations agree with the half-open interval they denote",
 "Size, emptiness, validity, membership, shifting, element-wise sum and difference, increment, decrement, comparison and invalidation of an interval agree with the half-open range between its two ends; the invalid interval is never valid, has size 0 and contains nothing.",
 ["inputs"],"every pair of bounds and every operand",
 "No test covers interval.",
 ["interval.hpp"], m(("interval<T>","interval.hpp")))

p("C10","CRC-32 is the IEEE CRC of the concatenated input",
 "The CRC-32 hash of any byte sequence is the reflected IEEE 802.3 CRC (polynomial 0xEDB88320, initial and final complement), independent of how the bytes are divided among calls; clearing restores the initial state.",
 ["inputs","histories"],"every byte sequence of any length, every division into calls",
 "The test hashes one string in a few pieces.",
 ["hash.hpp"], m(("crc32_hash","hash.hpp")))

p("C11","MD5 equals RFC 1321 for every input and division",
 "The MD5 hash of any byte sequence equals the RFC 1321 digest of the concatenated input, independent of how the bytes are divided among calls, including the bit count of inputs of 512 MiB and longer and of single blocks of 4 GiB and longer; clearing restores the initial state.",
 ["inputs","histories"],"every byte sequence up to 2^61 bytes, every division into calls",
 "The test hashes one short string; block-boundary, padding and long-length cases are not reached.",
 ["hash.hpp"], m(("md5_hash, block_hash","hash.hpp")))

p("C12","SHA-1 equals FIPS 180 for every input and division",
 "The SHA-1 hash of any byte sequence equals the FIPS 180 digest of the concatenated input, independent of how the bytes are divided among calls, including the bit count of inputs of 512 MiB and longer and of single blocks of 4 GiB and longer; clearing restores the initial state.",
 ["inputs","histories"],"every byte sequence up to 2^61 bytes, every division into calls",
 "The test hashes one short string; block-boundary, padding and long-length cases are not reached.",
 ["hash.hpp"], m(("sha1_hash, block_hash","hash.hpp")))

p("C13","String search and compare return the exact position and order",
 "String length, limited length, first/last occurrence of a character (exact or ignoring ASCII case), and equality/ordering comparison (exact or ignoring ASCII case) return exactly what their definition over the text up to the first zero or the count limit gives, and never read a code unit after the first zero or at or beyond the limit.",
 ["inputs"],"every text, every limit, every code-unit width",
 "No test covers these; off-by-one at limit/terminator is a per-length question.",
 ["string.hpp"], m(("strlen, strnlen, strchr, strnchr, strrnchr, strncmp, strcmp, strncoll...","string.hpp")))

p("C14","Bounded string copy and append never overrun and report the length",
 "Copying or appending text into a bounded buffer writes no code unit outside the buffer, reads none beyond the source's terminator or limit, stores the longest prefix that fits, terminates it whenever there is room, and returns the number of code units the result needs or holds as documented.",
 ["inputs"],"every source, destination size, existing destination content and count limit",
 "One strncpy test with fixed buffers.",
 ["string.hpp"], m(("strcpy, strncpy, strcat, strncat","string.hpp")))

p("C15","Integer parsing accepts exactly the number and reports overflow",
 "Parsing a signed or unsigned integer from text skips leading white space, takes an optional sign and radix prefix, consumes exactly the maximal run of digits valid in the radix, reports where it stopped, returns the exact value when it fits the requested type (for an unsigned type, a minus sign yields the negation modulo 2^n) and flags the sign and the overflow when it does not, saturating at the end of the signed range in the direction of the sign (unsigned: all ones, or 0 with a minus sign); it never reads beyond the terminator or limit.",
 ["inputs"],"every text of any length, radix 0 or 2..36, every limit, every integer width",
 "No direct test; overflow boundaries and digit counts are unbounded.",
 ["string.hpp"], m(("strtoint, strtouint, strto32/64, strtou32/64, strtosize","string.hpp")))

p("C16","ASCII character classification, case folding and line-end conversion are exact",
 "The ASCII predicates (space, punctuation, digit, letter, upper, lower, line break, 7-bit) hold for exactly the documented characters, upper/lower-case conversion maps exactly the 26 letters and leaves every other code unit unchanged also when applied to a whole string, and CRLF-to-LF conversion replaces each CR-LF pair by LF and nothing else.",
 ["inputs"],"every code unit value of every width, every text",
 "No test covers these.",
 ["string.hpp"], m(("isspace, islbreak, isupper, tolower, toupper, strlwr, strupr, crlf2nl","string.hpp")))

p("C17","UTF-16 surrogates and glyph boundaries are computed consistently",
 "Splitting a supplementary code point into surrogates and joining them back is the identity; the surrogate, combining and glyph-length predicates agree with the Unicode ranges; the length of the glyph at a position is at least one unit for a non-empty text, never exceeds the count given, and covers a whole surrogate pair together with every combining mark after it.",
 ["inputs"],"every code point, every UTF-16 or UTF-32 text and count",
 "No test covers these.",
 ["string.hpp"], m(("is_high_surrogate, surrogate_pair_to_ucs4, ucs4_to_surrogate_pair, iscombining, glyphlen, glyphrlen","string.hpp")))

p("C18","SGML escaping is bounded, minimal and reversible",
 "Escaping text for SGML produces, for every input and flag set, a text that decodes back to the input; it escapes every character that is not plain ASCII (or that the flags ask for), leaves other characters unchanged, and the bounded form never writes outside the destination buffer.",
 ["inputs"],"every Unicode text, every flag combination, every destination size",
 "The tests convert one sample sentence into large enough buffers.",
 ["sgml.hpp","sgml_unicode.hpp"], m(("str2sgml, str2sgmlcat, chr2sgml","sgml.hpp")))

p("C19","SGML decoding resolves entities and keeps offset mapping",
 "Decoding SGML replaces each known or numeric character entity by its characters, leaves everything else (including unknown and unterminated entities) unchanged, reads nothing beyond the limit, and the optional offset mapping records for each replaced entity the positions at which source and result resume.",
 ["inputs"],"every text and limit, every skip flag set",
 "The tests decode one sample sentence.",
 ["sgml.hpp","sgml_unicode.hpp"], m(("sgml2str, sgml2strcat, sgml2uni","sgml.hpp")))

p("C20","Limited stream never transfers more than its allowance",
 "Through a limited stream the total transferred never exceeds the read or write allowance, the data transferred is exactly what the underlying stream transfers, the allowance decreases by exactly the amount transferred, and a request made when the allowance is used up is reported as end of file on reading and as failure on writing.",
 ["inputs","histories"],"every allowance, request size and underlying stream behaviour, every history",
 "No test covers limiter.",
 ["stream.hpp"], m(("limiter::read/write","stream.hpp")))

p("C21","Window stream exposes exactly the selected part",
 "Reading through a window skips the first read-offset bytes of the underlying stream once and then returns at most the read-limit bytes that follow; writing discards the first write-offset bytes once, forwards at most the write-limit bytes that follow and discards the rest while reporting them as written.",
 ["inputs","histories"],"every offset, limit and request size, every underlying stream behaviour",
 "No test covers window.",
 ["stream.hpp"], m(("window::read/write","stream.hpp")))

p("C22","Buffered stream is transparent",
 "The bytes obtained through a read buffer are the bytes of the underlying stream in order, each exactly once, and the bytes given to a write buffer reach the underlying stream in order, each exactly once, no later than the next flush; the count returned equals the bytes stored or accepted.",
 ["inputs","histories"],"every buffer size, every sequence of request sizes, short reads and writes of the underlying stream",
 "Only replicator/async tests use buffering incidentally with full-size transfers.",
 ["stream.hpp"], m(("buffer::read/write/do_flush","stream.hpp")))

p("C23","Write-back cache equals the file it caches",
 "Reads, writes, seeks, truncation and size through the cache give what the same operations on the underlying file would give, and after a flush or close the underlying file holds exactly that content.",
 ["inputs","histories"],"every operation sequence, block position and request size",
 "No test covers cache.",
 ["stream.hpp"], m(("cache","stream.hpp")))

p("C24","Memory file behaves as a file",
 "A memory file behaves like a seekable byte file: writing stores exactly the given bytes at the current position, growing the file as needed, reading returns exactly the bytes between the position and the end and never touches memory outside the content, positions and size change by exactly the amount transferred, and truncation cuts at the position.",
 ["inputs","histories"],"every content, position (also past the end), request size, and operation order",
 "Stream tests write and read one memory file sequentially.",
 ["stream.hpp"], m(("memory_file","stream.hpp")))

p("C25","Memory FIFO delivers bytes once, in order",
 "Bytes written to the memory FIFO are read back in order, each exactly once, reads return everything available up to the request and report end of file only when nothing is available, and the size always equals the bytes written and not yet read.",
 ["inputs","histories"],"every sequence of write and read sizes",
 "No test covers fifo.",
 ["stream.hpp"], m(("fifo","stream.hpp")))

p("C26","Array and block transfers complete or report how far they got",
 "Array and block transfer helpers pass consecutive disjoint pieces of the caller's memory to the stream and never anything outside it: reading and skipping continue over short transfers until the request is complete or the stream reports end or failure, copying writes exactly the bytes it read, in order, and each returns exactly the number of bytes or whole elements transferred; a request whose byte size overflows is refused before any transfer; reading back a value or a list of values gives what was written.",
 ["inputs","histories","fault_sequences"],"every request size, element size and sequence of short transfers or failures of the stream",
 "The tests use files that always transfer in full.",
 ["stream.hpp"], m(("basic::read_array/write_array/read_remainder/skip/write_byte/write_stream, operator<< and >>","stream.hpp")))

p("C27","Diagnostic file mirrors one file to all",
 "A diagnostic file passes every operation with the same arguments to each underlying file, in order, and returns the common result, failing when the files disagree.",
 ["inputs","histories"],"every number of files and every result they return",
 "No test covers diag_file.",
 ["stream.hpp"], m(("diag_file","stream.hpp")))

p("C28","Records are aligned, sized and found again",
 "A record written with the record helpers occupies its header, its content and zero padding up to the alignment; its stored size equals the content length, and a search for an id skips exactly whole records and stops at the first record with that id or reports failure when none exists within the limit.",
 ["inputs","histories"],"every record content, id, alignment and preceding record sequence",
 "No test covers idrec.",
 ["idrec.hpp"], m(("open, close, find, read_id, ignore, record","idrec.hpp")))

p("C29","Calendar conversions are inverse and day-consistent",
 "For years 1 to 1469000 (the range of the 32-bit day number): converting a valid calendar date (and time of day) to a time point gives the day number of the Gregorian calendar, and back returns the same fields, consecutive days differ by one, the weekday advances by one modulo 7, and conversion to and from system time preserves the instant at the precision of the type.",
 ["inputs"],"every valid date of the years 1 to 1,469,000 and every time of day",
 "No test runs chrono.",
 ["chrono.hpp"], m(("from_dmy/to_dmy/day_of_week/to_time_t","chrono.hpp")))

p("C30","Every parser stays inside the text and reports a sane region",
 "Matching at a position never reads a code unit at or beyond the end limit nor after the first zero unit seen; on success the reported region starts at the position and ends no later than the end limit, and on failure the region is invalid and the result is false.",
 ["inputs"],"every text, start, end and flags, every parser class and any conforming sub-parsers",
 "http_test matches two sample requests; reading past the end needs inputs cut at every place.",
 ["parser.hpp"], m(("do_match of each parser class","parser.hpp")))

p("C31","Parser combinators compose regions exactly",
 "A sequence succeeds exactly when its members match one after another and spans them; a branch selects the first matching member; iterations take between the minimum and maximum number of consecutive non-empty matches, greedily or as few as needed; a permutation matches every member once in some order; a set member test reports the matched index.",
 ["inputs","programs"],"every text and any sub-parsers obeying the parser contract",
 "http_test covers a few fixed compositions.",
 ["parser.hpp"], m(("basic_sequence, basic_branch, basic_iterations, basic_permutation, basic_set","parser.hpp")))

p("C32","Numeric parsers compute the value of what they matched",
 "Decimal, hexadecimal and Roman numeral parsers return the value denoted by exactly the digits of the matched region, and IPv4 address matching stores the four octet values, each 0..255.",
 ["inputs"],"every digit text and start/end",
 "No test covers these.",
 ["parser.hpp"], m(("basic_integer10, basic_integer16, basic_roman_numeral, basic_ipv4_address","parser.hpp")))

p("C33","Check-digit parsers accept exactly valid references",
 "IBAN, ISO 11649 creditor reference and SI reference matching mark a reference valid exactly when its ISO 7064 mod 97-10 (or mod 11) check digits are right for the characters matched.",
 ["inputs"],"every reference text",
 "No test covers these.",
 ["parser.hpp"], m(("basic_iban, basic_creditor_reference, basic_si_reference","parser.hpp")))

p("C34","GUID text parsing is bounded and inverse to formatting",
 "Formatting a GUID and parsing the text returns the same GUID; parsing reads no code unit at or beyond the limit or after the terminator, accepts exactly an opening brace, five hexadecimal numbers (each as the integer parser of the library reads it) separated by dashes and a closing brace, with optional white space between and nothing after, and rejects numbers that do not fit their group.",
 ["inputs"],"every GUID, every text and limit",
 "No test runs uuid.",
 ["uuid.hpp"], m(("strtouuid, uuidtostr","uuid.hpp")))

p("C35","Sensitive memory is zeroed before release",
 "Memory obtained through the sanitizing allocator or blob holds only zeros by the time it is given back, in optimised builds too, and the whole block is covered.",
 ["inputs","configurations"],"every element type and count, optimisation on or off",
 "No test can look at freed memory; the optimiser may remove the wipe.",
 ["memory.hpp"], m(("sanitizing_allocator::deallocate, ~sanitizing_blob","memory.hpp")))

p("C36","Pool returns only what was put in, once",
 "Taking an item from the pool returns an item previously put into the same sub-pool and not taken since, or a default item exactly when that sub-pool is empty; clearing empties every sub-pool.",
 ["histories","schedules"],"every operation history under every lock order",
 "The pool test runs one random multi-thread schedule.",
 ["pool.hpp"], m(("pool::pop/push/clear","pool.hpp")))

p("C37","Scope helpers act exactly once",
 "A scoped executor runs its first action once on construction and its second action once on destruction; a returned-pointer helper hands the pointer it holds back to its owner exactly once, also after being moved.",
 ["histories"],"every action and pointer, moved or not",
 "No test covers these.",
 ["scoped_executor.hpp","memory.hpp"], m(("scoped_executor, ref_unique_ptr","memory.hpp")))

p("C38","Compression streams round-trip",
 "Bytes written through the compression writer and read back through the decompression reader are the original bytes, whatever the write and read sizes.",
 ["inputs","histories"],"every content, every write/read size sequence",
 "The zlib test compresses one buffer in one write.",
 ["zlib.hpp"], m(("zlib_writer, zlib_reader","zlib.hpp")))

p("C39","Character set conversion preserves text",
 "Converting text between character sets that can both represent it and back returns the original text, independent of its length.",
 ["inputs"],"every text, every pair of supported character sets",
 "The unicode tests convert fixed samples.",
 ["unicode.hpp"], m(("charset_encoder, str2wstr, wstr2str","unicode.hpp")))

p("C40","Watchdog fires exactly when not reset in time",
 "The watchdog calls its callback once per missed deadline and never while resets arrive within the timeout, and destruction stops it.",
 ["schedules"],"every timing of resets and destruction",
 "The test samples one schedule.",
 ["watchdog.hpp"], m(("watchdog::run","watchdog.hpp")))

p("C41","Concurrent stream adapters deliver the stream in order to every side",
 "The asynchronous reader and writer and the replicator deliver every byte of the source to each destination in order, and shut down without deadlock.",
 ["schedules","fault_sequences"],"every interleaving and every failing destination",
 "The tests run one schedule with fast local files.",
 ["stream.hpp"], m(("async_reader, async_writer, replicator","stream.hpp")))

p("C42","Language tag tables are consistent",
 "For every language identifier that has an RFC 1766 tag, looking up that tag, in any letter case and with any punctuation as separator, gives that identifier or another identifier with the same tag, and every tag that can be looked up gives an identifier whose tag it is; unknown tags and identifiers give langid_unknown and the fallback.",
 ["inputs"],"every table entry and every text",
 "The langid test checks a few entries.",
 ["langid.hpp"], m(("langid_from_rfc1766 / rfc1766_from_langid","langid.hpp")))

p("C43","Scope-bound progress reporting keeps range mapping",
 "Progress reported through a switcher, lazy or global adapter reaches the underlying indicator with the position mapped into the assigned section, never outside it for positions within the local range, as long as the product of the local position and the section size fits the type.",
 ["inputs","histories"],"every range, section and position",
 "No test covers progress.",
 ["progress.hpp"], m(("global_progress, progress_switcher, lazy_progress","progress.hpp")))
