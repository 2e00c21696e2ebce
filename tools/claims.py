T="Trusts clang's front end, the VC generator in /verif/vc, z3/cvc5 and the assumed library contracts listed in the evidence. "
CLAIMS={
"C01":T+"All inputs, no bound: every path of mul, add, rol (1..31) and 32-bit muldiv.",
"C02":T+"All lengths and contents by loop invariants, for char and wchar_t text; lengths below 2^60; libstdc++ string/vector mutators are assumed contracts.",
"C04":T+"Every text, division into reads and writes, short source reads and failures, by representation invariants between calls and loop invariants; the stream under the adapter is abstract (its contract is assumed: it returns consecutive bytes and a failed stream stays failed). Text written and read back being the original is a composition of the two contracts.",
"C05":T+"Every value of every integer width; equality with the byte-reversed term decided by the SMT back end.",
"C07":T+"Every capacity 1..2^56, every queue state and operation for 8-byte elements; single-step contracts over a representation invariant, copy loops by loop invariants. Element copying of other types is the same template text.",
"C08":T+"Every table length and content, position and hint, by loop invariants over the binary search.",
"C09":T+"Every pair of bounds and operand of interval<int32_t> and interval<size_t>, all member functions.",
"C03":T+"Every block length, content and division into calls, by representation invariants between calls and loop invariants, for char and wchar_t text.",
"C06":T+"Every reachable state at every lock acquisition and every allowed count under rely/guarantee between one producer and one consumer; capacities 1, 2, 7, 8, 50 and 4096 (the capacity is a template constant). Mutex and condition variable semantics are assumed.",
"C10":T+"Every length, content and division: the register after any block equals the bitwise polynomial division; also stream_hasher over an abstract stream.",
"C11":T+"Every length below 2^60, content and division: the compression equals RFC 1321 by proved cut points, hash/finalize by loop invariants over the padded message.",
"C12":T+"Every length below 2^60, content and division: the compression equals FIPS 180-4 by proved cut points, hash/finalize by loop invariants over the padded message.",
"C13":T+"Every text, terminator position and limit for char, wchar_t and char16_t (and mixed pairs), by loop invariants; locale facets are arbitrary functions of the character (assumed).",
"C14":T+"Every source, destination state, capacity and limit for six pairs of character types, by loop invariants over both texts; UTF-16 to UTF-32 copies with a ghost code point index.",
"C16":T+"Every code unit of char, wchar_t and char16_t; every text, limit and array by loop invariants; locale facets are arbitrary functions of the character (assumed).",
"C15":T+"Every text, limit and radix for char, wchar_t and char16_t and 8 to 64 bit results: exact or saturated value, sign and overflow flags and end position, by loop invariants over the digit run; the division form of the overflow test is a lemma proved for each radix.",
"C17":T+"Every code unit and code point; every text and limit by loop invariants, for UTF-16 (char16_t) and UTF-32 (wchar_t) text.",
"C35":T+"Every block size and content for element sizes 1, 4, 8 and 24 and blobs of 1, 16, 33 and 4096 bytes, on the IR after clang -O2: what the optimiser left is what is proved. The code generator behind it is trusted.",
"C36":T+"Every pool state and order of operations for items behind unique_ptr-like 8-byte values: each operation preserves the representation and moves exactly the item asked for; the spinlock by rely/guarantee. std::map and std::list semantics are assumed contracts; the NUMA node numbers are arbitrary.",
"C37":T+"Every owner state and order of moves for the single-object and array forms, with use-after-scope obligations on every stack object.",
"C42":T+"The tag comparison is proved a strict weak order on every pair of texts (loop invariant), the two lookups for any table, and the agreement of the tables entry by entry on the constants in the compiled code. std::map semantics are assumed.",
"C43":T+"Every range, section, position and host answer for size_t, uint32_t and int progress whose mapping product fits the type.",
"C20":T+"Every pair of allowances, request size and behaviour of the underlying stream (any short transfer and state), for read, write, flush and close.",
"C21":T+"Every offset, limit, request size and behaviour of the underlying stream for the window stream (file_window is outside the statement).",
"C26":T+"Every count and every sequence of short transfers, ends and failures of the stream by loop invariants; element sizes 1, 2, 3, 4, 8, 16 and 1000 (the size of a type); integers of 8 to 64 bits and vectors of uint32_t.",
"C22":T+"Every buffer capacity and fill, request size and behaviour of the underlying stream, for read, write, flush and close, by representation invariants and loop invariants; a short write of the source is assumed to leave it not ok.",
"C24":T+"Every file content, size, reservation and position, every operation of memory_file including typed, string and block transfers; positions and requests below 2^60; malloc/realloc may fail at every call.",
"C25":T+"Every queue content and request size by induction over an abstract chain of nodes (payload bytes as a concatenated text); nodes below 16 GiB.",
"C34":T+"Every identifier, text and limit for char, wchar_t and char16_t: exact text when formatting, exact acceptance and bytes when parsing, and the round trip, over the contract of strtou64 proved as C15.",
"C29":T+"Every date of years 1 to 1469000, every time of day and every instant of that range, decided in linear integer arithmetic after proving that no word operation overflows.",
}
NA={}
