#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run this file to regenerate it).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- concurrency
p("C01", "Single-producer single-consumer queue is a lossless FIFO",
  "With one producer and one consumer thread, every item whose enqueue succeeded is dequeued exactly once, in enqueue order and with its contents intact. Enqueue reports full only when the queue holds its capacity of items at some moment of the call, dequeue reports empty only when nothing is queued at some moment of the call, and the two threads never race on a slot.",
  ["schedules", "configurations"], "every interleaving and every C11-permitted stale read of one producer and one consumer, for every queue size and start offset in bounds, including index wrap-around",
  "t_spscq runs one long race on one machine (x86, strong ordering) and one size; it cannot reach a particular interleaving or a weaker memory order.",
  ["inc/fast/spsc_bounded_queue.h"], [("acquire/release handover of head and tail", "inc/fast/spsc_bounded_queue.h:SPSC_QUEUE_ENQ/DEQ")],
  observe=["return values and dequeued items"])
p("C02", "Multi-producer multi-consumer queue loses, duplicates and reorders nothing",
  "With any number of producer and consumer threads, every item whose enqueue succeeded is dequeued at most once, by exactly one consumer when drained, with its contents intact, and the whole history is that of one first-in first-out queue of the stated capacity. A full or empty answer is given only when the queue could be full or empty during the call, and no thread ever reads a slot while another writes it.",
  ["schedules", "configurations"], "every interleaving and C11-permitted stale read of up to 4 threads and a few operations each, including wrap-around",
  "t_mpmcq is a timing stress on x86: it samples a few schedules and cannot see weak-memory outcomes.",
  ["inc/fast/mpmc_bounded_queue.h"], [("per-slot sequence numbers, CAS on head and tail", "inc/fast/mpmc_bounded_queue.h:__MPMC_Q_ENQ/DEQ")])
p("C03", "Lock-free ring delivers every item once, in order, in whole batches",
  "For every combination of single/multiple producers and consumers the ring hands every enqueued item to exactly one consumer, in order per producer and consistent with one first-in first-out queue, and never exposes a slot that is not completely written. Bulk operations transfer all items or none; burst operations transfer as many as fit, and the count returned is the count transferred.",
  ["schedules", "configurations"], "every interleaving and permitted stale read of up to 4 threads using the single- and multi- variants, batch sizes and offsets in bounds, including wrap-around of the ring",
  "t_ringbuf stresses one shape on x86; publication-order bugs need a particular overlap of two producers' reserve and commit steps.",
  ["inc/fast/ringbuf.h"], [("reserve by CAS, copy, then publish in reservation order", "inc/fast/ringbuf.h")])
p("C04", "Blocking queue never loses an item or a wake-up",
  "A bounded blocking queue shared by producers and consumers delivers every item exactly once in first-in first-out order, never holds more than its capacity, and a blocked producer or consumer always proceeds once there is room or an item. A destroyed queue has released everything it allocated.",
  ["schedules", "configurations"], "every interleaving of up to 4 threads' waits, posts and lock operations, all queue sizes in bounds",
  "No unit test checks blocking behaviour: t_prodcons runs one fast race.",
  ["inc/fast/syncq.h"], [("two counting semaphores and a mutex", "inc/fast/syncq.h")])
p("C05", "Job manager runs every submitted job exactly once",
  "Every job accepted by the job manager is run exactly once by some worker, and waiting for all jobs returns only after every job submitted before has finished, does return, and reports how many jobs failed. Each worker tells the jobs it runs its own number, which no other worker has. Destroying the manager after that, or failing to start it, leaves no worker running and no memory or lock behind.",
  ["schedules", "configurations", "fault_sequences"], "every interleaving of the submitting thread and up to 3 workers, every small job list, including jobs that wait for each other and jobs that submit others, interrupted waits, and every failure while starting",
  "The only test (mt-dd-wipe) is a tool; nothing checks shutdown or completion races.",
  ["src/posix/job.c", "inc/posix/job.h"], [("blocking queue of jobs, completion semaphore, end markers", "src/posix/job.c")])
p("C06", "Work manager runs every item exactly once and drains before exit",
  "Every item of work accepted by the pool is processed exactly once, and shutdown returns only after all accepted work is finished and all workers have ended. Work directed at a worker runs on that worker in the order submitted, other work is dealt to the workers in turn, and no schedule makes shutdown or submission hang.",
  ["schedules", "configurations"], "every interleaving of the submitters and up to 3 workers, small work lists, interrupted waits, and every failure while starting",
  "No unit test covers it.",
  ["src/posix/work.c", "inc/posix/work.h"], [("a blocking queue per worker, completion semaphore", "src/posix/work.c")])
p("C07", "Locked hash table is linearizable under concurrent use",
  "When the hash table is created with a mutex locking policy, concurrent inserts, probes, replaces, lookups and removes behave as if executed one at a time in an order consistent with their real-time order. No interleaving deadlocks, touches freed memory or loses an item.",
  ["schedules", "histories"], "every interleaving of 2-3 threads doing 1-3 operations each on colliding and distinct keys",
  "t_hashtab is single threaded with the null lock policy.",
  ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "inc/utils/lockmgr.h"], [("per-bucket and per-table locks", "src/hashtable/hashtab.c")])

# ---------------------------------------------------------------- containers
p("C08", "Hash table behaves as a map under every operation sequence",
  "After any sequence of insert, probe, replace, lookup, remove and conditional remove, the table holds exactly the items a plain map would hold, every answer (found, duplicate, removed, the item handed back) agrees with it, and its statistics are right: items, buckets, buckets with items, splits, and how many inserts, replaces, deletes, lookups and failed lookups there were; the longest chain is at least the present one and at most the longest since the last split. Null arguments are refused and change nothing. The destructor runs exactly once for each item that leaves the table and never for one still in it, and growing the table changes none of this.",
  ["histories", "configurations"], "every operation sequence up to a depth over keys chosen to collide in full hash, in bucket or not at all, for table sizes and fill limits that force growth at every point",
  "t_hashtab inserts, finds and removes one word list in one order; collisions between near-equal hashes, replace, probe and conditional remove are never exercised.",
  ["src/hashtable/hashtab.c", "inc/utils/hashtab.h"], [("bucket chains, resize on fill", "src/hashtable/hashtab.c:insert_internal,resize")])
p("C09", "Hash table traversal visits every item exactly once, sorted when asked",
  "Applying a function, plain iteration and sorted iteration each visit every item of the table exactly once and nothing else, and sorted iteration visits them in the order of the table's comparison function. Iterating the bucket of a key yields the item with that key, and an iterator can be restarted, exhausted and deleted without leaking or touching freed memory.",
  ["histories", "configurations"], "every table content reachable by operation sequences up to a depth, each traversed by every iterator kind",
  "t_hashtab only counts items of plain iteration.",
  ["src/hashtable/hashtab_iter.c", "src/hashtable/hashtab.c"], [("vanilla, sorted and bucket iterators", "src/hashtable/hashtab_iter.c")])
p("C10", "Fast hash table of 64-bit keys behaves as a map",
  "After any sequence of add, probe, replace, find, remove and delete, the table answers exactly as a map from 64-bit keys to values: nothing is lost when buckets overflow or the table grows, a duplicate add is reported as such, and the reported size is the number of keys. The table does not keep growing while the number of keys stays bounded. (Keys are non-zero and values non-null.) Removing a key hands back its value and leaves every other key findable.",
  ["histories", "configurations"], "every operation sequence up to a depth over keys chosen to share buckets, tags and full hashes, through bucket chaining and splits",
  "t_fast-ht-basic uses random distinct keys; the tag collisions and overflow chains a bug needs are rarely hit.",
  ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"], [("bags of slots with fingerprint search", "src/hashtable/fast-ht.c")])
p("C11", "Bloom filters have no false negatives",
  "In every kind of Bloom filter (standard, counting, scalable) an element that was added, and for counting filters not removed as often, is always reported present. An empty filter reports nothing present, and removing from a counting filter an element added alongside others never makes any of the others absent.",
  ["histories", "configurations"], "every sequence of add, remove and find up to a depth, for filter sizes and error rates in bounds, past a scalable filter's growth points",
  "t_bloom samples one word list at one size.",
  ["src/hashtable/bloom.c", "inc/utils/bloom.h"], [("k partitioned bit/counter arrays, growth by appending filters", "src/hashtable/bloom.c")])
p("C12", "A saved Bloom filter comes back identical, a damaged file is refused",
  "A filter written to a file and read back, by reading or by memory mapping, answers every query exactly as the original and has the same name, kind and parameters; deleting it releases its memory and mapping. A file with any changed byte or any truncation is refused with an error (or is indistinguishable from the original), and is never read out of bounds.",
  ["histories", "inputs"], "filters of every kind and small shape; every single-byte change (each bit) and every truncation length of the saved file",
  "No unit test damages a file.",
  ["src/hashtable/bloom_marshal.c"], [("header and content checksum", "src/hashtable/bloom_marshal.c")])
p("C13", "Xor filters contain every key they were built from",
  "A static filter built from any set of distinct 64-bit keys, at either fingerprint width, reports every one of them present; building it never reads or writes out of bounds and releases all temporary storage.",
  ["inputs"], "every key set drawn from a universe of structured keys, of every size from 1 up to bounds",
  "t_xorfilter uses two large random key sets; small sets take different code paths.",
  ["src/hashtable/xorfilter.c", "inc/utils/xorfilter.h"], [("peeling construction with retries", "src/hashtable/xorfilter.c")])
p("C14", "A saved xor filter comes back identical, a damaged file is refused",
  "A filter written to a file and read back, by reading or by memory mapping, gives the same answer to every query; deleting it releases its memory and mapping. A file with any changed byte or any truncation is refused with an error, and is never read out of bounds.",
  ["histories", "inputs"], "filters of both widths; every single-byte change (each bit) and every truncation length",
  "t_xorfilter-file is a tool over large files and damages nothing.",
  ["src/hashtable/xorfilter_marshal.c"], [("header and content checksum", "src/hashtable/xorfilter_marshal.c")])
p("C15", "Saving a filter is atomic: a crash or error leaves the old file or the new one",
  "When a filter is saved over an existing file, then after a crash at any point, or a failure of any system call, the file under the target name is a complete loadable filter: the old one or the new one, never a mixture or a fragment. When saving fails it returns an error, and when it succeeds the target is the new filter.",
  ["crash_points", "fault_sequences"], "every system call the save makes, cut before or after it, or made to fail with each error or short count it may give",
  "No test injects faults.",
  ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"], [("write to a temporary name, then rename", "src/hashtable/bloom_marshal.c, xorfilter_marshal.c")])
p("C16", "Fixed-size memory pool hands out disjoint, aligned, stable blocks",
  "Blocks a pool hands out are aligned, disjoint from each other and from the pool's own bookkeeping, large enough for the element size, and stay intact until released; a released block is reusable, and a bounded pool serves exactly as many blocks as it promises before reporting exhaustion. Deleting the pool releases everything it took.",
  ["histories", "configurations"], "every alloc/free sequence up to a depth, for every element size, chunk size, limit and caller-supplied memory size in bounds",
  "t_mempool allocates to the end and frees all, for one configuration.",
  ["src/mempool.c", "inc/utils/mempool.h", "src/memmgr.c"], [("free list over chunks", "src/mempool.c")])
p("C17", "Arena allocations are disjoint and live until the arena is deleted",
  "Every block from an arena is aligned to eight bytes, at least as large as asked, disjoint from every other block and keeps its contents until the arena is deleted. Requests of any size either succeed so or report failure, and deleting the arena releases all of it.",
  ["histories", "configurations"], "every sequence of request sizes up to a depth around every size boundary, for several chunk sizes",
  "t_arena uses random sizes far from the boundaries.",
  ["src/arena.c", "inc/utils/arena.h"], [("chunk list with bump allocation", "src/arena.c")])
p("C18", "Dynamic vector holds exactly the elements put into it",
  "After any sequence of append, push and pop at either end, copy, append of another vector, reserve, resize, reset, shuffle, sort and the other vector operations, the vector's length and contents equal those of a plain sequence, and its storage never overflows while it grows. Sorting yields the given order, shuffling a permutation and sampling as many distinct elements as asked for; with a uniform random generator every permutation and every choice of elements is equally likely.",
  ["histories", "configurations"], "every operation sequence up to a depth from every small initial capacity",
  "t_vect runs one sequence per operation.",
  ["inc/fast/vect.h"], [("capacity doubling", "inc/fast/vect.h:VECT_RESERVE")])
p("C19", "Linked lists keep their order and links under every operation sequence",
  "After any sequence of head/tail/before/after insertions, removals and appends the list contains exactly the expected elements in the expected order, forwards and backwards, its first and last elements are right, and safe iteration tolerates removal of the current element.",
  ["histories"], "every operation sequence up to a depth over a few nodes, for singly and doubly linked lists and the kernel-style list",
  "t_list runs one script.",
  ["inc/fast/list.h", "inc/fast/llist.h"], [("intrusive links", "inc/fast/list.h")])
p("C20", "Fixed-capacity queue is a FIFO up to exactly its capacity",
  "After any sequence of enqueue, dequeue and reset, the queue holds exactly what a bounded first-in first-out queue would, reports full at exactly its usable capacity and empty at exactly zero elements, across any number of index wrap-arounds.",
  ["histories", "configurations"], "every operation sequence up to a depth for each capacity in bounds",
  "No unit test covers it.",
  ["inc/fast/queue.h"], [("circular buffer with one spare slot", "inc/fast/queue.h")])
p("C21", "Bit vectors store every bit independently",
  "Setting, clearing and testing any bit affects and reads exactly that bit; and, or, xor, and-not, complement, copy and duplicate agree with the bitwise definition for every length, including lengths that are not a multiple of the word size.",
  ["histories", "configurations"], "every operation sequence up to a depth for lengths around every word boundary",
  "t_bitvect checks a few lengths and random bits.",
  ["inc/fast/bitset.h"], [("word array and masks", "inc/fast/bitset.h")])
p("C22", "Growable strings stay well formed and equal their model",
  "After any sequence of append (of text, a character or another string, itself included), copy, truncate, reset, trim, unquote, chop, duplicate, compare and read-line operations, a growable string's length and bytes equal those of a plain string, it is terminated, and its storage never overflows. A string received by copy or duplicate is independent of its source.",
  ["histories", "configurations"], "every operation sequence up to a depth from every small initial capacity with operands around each growth boundary",
  "No unit test drives it directly (t_gvarexp only touches variable expansion).",
  ["src/gstring.c", "inc/utils/gstring.h"], [("capacity doubling", "src/gstring.c")])
p("C23", "Variable expansion substitutes exactly the referenced variables",
  "Expanding a string replaces every variable reference by its value and leaves every other byte as it was, including escapes, nested values and text around references. Unterminated or malformed references are reported as errors without touching memory outside the string.",
  ["inputs"], "every template string over an alphabet of special characters up to a length, against a reference expander",
  "t_gvarexp has a short table of cases.",
  ["src/gstring_var.c"], [("reference scanner", "src/gstring_var.c")])
p("C24", "Min-heap always yields the least element",
  "After any sequence of insertions, removals of the least and removals at a position, popping yields the elements in non-decreasing order and exactly the multiset that was inserted.",
  ["histories"], "every operation sequence up to a depth over a small value domain",
  "No unit test covers it.",
  ["inc/utils/minheap.h"], [("sift up and down", "inc/utils/minheap.h")])

# ---------------------------------------------------------------- text and encodings
p("C30", "String escaping round-trips and never overruns",
  "Unescaping the escaped form of any byte string returns the original bytes, and in escaped text no character of the set to be escaped appears unescaped while every other character appears as it was. Neither direction reads outside its input or writes past the space it allocated or was given.",
  ["inputs", "configurations"], "every byte string up to a length over a full 256-byte or a special-character alphabet, for every escape set in bounds",
  "t_esc has a table of a few strings.",
  ["src/escape.c", "src/unescape.c"], [("escape tables", "src/escape.c, src/unescape.c")])
p("C31", "Pack and unpack are inverse and stay inside the buffer",
  "For every format, unpacking what was packed returns the same values, the packed bytes are the documented layout in the chosen byte order, and the returned length is the number of bytes used. When the buffer is too small by any amount, or the format is malformed, an error is returned and nothing outside the buffer is touched.",
  ["inputs", "configurations"], "every format string up to a length over the format alphabet with counts, every buffer size around the need, boundary values",
  "t_pack checks a few fixed formats.",
  ["src/pack.c", "inc/utils/pack.h"], [("format interpreter", "src/pack.c")])
p("C32", "Base64 coding is standard, bounded and independent of chunking",
  "Encoding yields standard base64 of the input, decoding returns the original bytes, and both give the same result however the input is split across streaming calls. Invalid input is rejected or skipped as documented and no call writes beyond the output space it was told of.",
  ["inputs", "configurations"], "every input up to a length over a boundary alphabet, every way of splitting it, every output size",
  "t_b64_c has a table of strings encoded in one go.",
  ["src/b64_encode.c", "src/b64_decode.c", "inc/utils/base64.h"], [("state machines", "src/b64_*.c")])
p("C33", "Hex decoding and hex dumps are exact",
  "Decoding a hex string yields exactly the bytes it spells, accepts exactly the documented forms, and never writes more bytes than allowed. A hex dump of any buffer shows every byte at its offset exactly once, with its printable text.",
  ["inputs", "configurations"], "every hex string up to a length over a boundary alphabet and every output size; every buffer length over several lines and offset",
  "t_str2hex and t_hexdump use a few strings.",
  ["src/str2hex.c", "src/hexdump.c"], [("digit pairing; line formatter", "src/str2hex.c, src/hexdump.c")])
p("C34", "Number and size parsing is exact and rejects overflow",
  "Parsing an unsigned integer or a size with a unit suffix returns exactly the value written, reports the first unparsed character, and rejects malformed text and any value that does not fit. Formatting a byte count for humans shows a value that equals the count to the displayed precision.",
  ["inputs"], "every string up to a length over digits, prefixes, suffixes and garbage, in every base, plus all values around powers of two and the overflow limits",
  "t_strtoi and t_strtosize have short tables.",
  ["src/strtosize.c", "src/humanize.c", "inc/utils/strutils.h"], [("overflow-checked accumulation", "src/strtosize.c")])
p("C35", "Splitting a string yields exactly its fields",
  "Splitting a string at delimiters, with or without squeezing runs of them, yields exactly the fields between delimiters, in order, within the array limit given, and reports when there are too many. An empty field after the last delimiter is not counted; when squeezing, blanks around the string are dropped first.",
  ["inputs", "configurations"], "every string up to a length over delimiters and letters, every delimiter set and array size in bounds",
  "t_strsplit has a short table.",
  ["src/strsplit.c", "inc/utils/strutils.h"], [("scanner", "src/strsplit.c")])
p("C36", "Quoted command lines and CSV records split by their grammar",
  "Splitting a command line at blanks honours single and double quotes, adjoining quoted and plain parts forming one word, and splitting a CSV record honours quoted parts and quote characters escaped inside them. Unbalanced quotes and too many fields are reported, and no input makes either read or write outside the text or the result array.",
  ["inputs", "configurations"], "every string up to a length over letters, blanks, separators, quotes and backslash, every array size in bounds, against a reference grammar",
  "t_splitargs and t_strsplit_csv have short tables.",
  ["src/splitargs.c", "src/strsplit_csv.c"], [("quote state machines", "src/splitargs.c, src/strsplit_csv.c")])
p("C37", "Trimming, unquoting and bounded copying are exact",
  "Trimming removes exactly the leading and trailing blanks, unquoting removes exactly one pair of enclosing quotes and reports unbalanced ones, and bounded copying copies as much as fits, always terminates and reports truncation. None touches memory outside the strings given.",
  ["inputs", "configurations"], "every string up to a length over a small alphabet, every buffer size",
  "t_strcopy has a few cases, the others none.",
  ["src/strtrim.c", "src/strunquote.c", "src/strcopy.c"], [("index arithmetic", "src/strtrim.c, src/strunquote.c, src/strcopy.c")])
p("C38", "IPv4 addresses and masks parse exactly",
  "Parsing accepts exactly the dotted-quad addresses with octets 0-255 (decimal, up to three digits), optionally with a mask length 0-32 or a dotted mask, and yields exactly the address and mask written. Everything else is refused, formatting an address parses back to itself, and converting a mask to a prefix length is exact for contiguous masks and refuses every other.",
  ["inputs"], "every string up to a length over digits, dot, slash and garbage, and every combination of boundary octets and all mask forms",
  "t_ipaddr has a table of cases.",
  ["src/parse-ip.c", "inc/utils/parse-ip.h"], [("octet parser and mask validation", "src/parse-ip.c")])
p("C39", "UUID and ULID text forms round-trip; generated ids are well formed",
  "Formatting an identifier and parsing it back returns the same 128 bits, malformed text and short buffers are refused without overrunning, and every generated identifier carries its mandated version and variant bits or its timestamp. An identifier is never reported as generated when the random source failed.",
  ["inputs", "configurations", "fault_sequences"], "every single-byte pattern at every position, every text deviation of one or two characters, every buffer size, every answer of the clock and the random source",
  "t_uuid and t_ulid check a few random ids.",
  ["src/uuid.c", "src/ulid.c"], [("hex and base32 codecs", "src/uuid.c, src/ulid.c")])
p("C40", "Command-line parsing follows the documented option grammar",
  "For every option table and argument list, short and long options, abbreviations, required and optional arguments, operand permutation and the end-of-options marker are recognised as the GNU getopt_long contract says, and the order of operands is preserved. Ambiguous, unknown or malformed options yield the error code without reading outside the arguments.",
  ["inputs", "configurations"], "every argument list up to a length over an alphabet of option forms and operands, for several option tables and ordering modes, against the C library's own implementation",
  "No unit test covers it.",
  ["src/getopt_long.c", "inc/getopt_long.h"], [("permutation and abbreviation search", "src/getopt_long.c")])
p("C41", "Every string search finds exactly the occurrences of the pattern",
  "Each string-matching algorithm offered returns exactly the offsets, overlapping ones included, at which the pattern occurs in the text, for every text and every non-empty pattern, and reads nothing outside them.",
  ["inputs"], "every text and pattern up to a length over a small alphabet (with high and zero bytes), each algorithm against the definition",
  "strmatch tests a table of cases.",
  ["inc/utils/strmatch.h"], [("Boyer-Moore, turbo Boyer-Moore, Knuth-Morris-Pratt, Rabin-Karp matchers", "inc/utils/strmatch.h")])
p("C42", "Integer encoders and decoders are exact in both byte orders",
  "Encoding any 16-, 32- or 64-bit integer in little- or big-endian order yields the defined bytes at any alignment, decoding returns the same value, and byte swapping is an involution; advancing forms move the pointer by exactly the width.",
  ["inputs"], "every byte position and boundary value for every width and order, at every alignment",
  "Tests use them incidentally.",
  ["inc/fast/encdec.h", "inc/fast/byteorder.h", "inc/fast/swab.h"], [("shift/or codecs", "inc/fast/encdec.h")])

# ---------------------------------------------------------------- operating system facing
p("C50", "Directory traversal visits every entry once, in order, and restores the cwd",
  "Walking a directory tree reports every directory once before and once after its contents and every other entry exactly once, with the right path, depth and kind, in comparison order when one is given; skipped subtrees and stopping early are honoured. Afterwards the working directory is what it was and no descriptor or memory is left open.",
  ["configurations", "inputs"], "every tree shape up to a few nodes (files, directories, links, dangling links and unreadable directories), every option combination and every instruction at every entry",
  "t_fts walks one real directory and compares nothing.",
  ["src/fts.c", "inc/fts.h"], [("chdir-based traversal with parent chain", "src/fts.c")])
p("C51", "Log rotation keeps the newest files and never loses the current one",
  "Rotating a log file shifts each saved copy up by one, makes the current content the newest copy, drops only copies beyond the limit, and rotates by size only when the file exceeds it. If any step fails or the process dies at any point, no content that should be kept is lost.",
  ["configurations", "crash_points", "fault_sequences"], "every set of existing saved copies (with gaps), every limit in bounds, plain and dated forms, every system call failing or being the last before a crash",
  "t_rotatefile is an interactive tool.",
  ["src/rotatefile.c", "inc/utils/rotatefile.h"], [("rename chain", "src/rotatefile.c")])
p("C52", "Creating a directory path succeeds however it is spelled or contended",
  "Creating a directory hierarchy makes every missing component, whatever redundant slashes or dots the path has, succeeds when the directory already exists or another process creates parts of it at the same time, and reports an error when a component is not a directory or cannot be made. The directory part of a path is computed exactly and within the buffer given.",
  ["inputs", "schedules", "fault_sequences"], "every path over a small alphabet up to a length, every prior file-system state, every interleaving with another creator, every buffer size",
  "t_mkdirhier is an interactive tool; t_dirname has a short table.",
  ["src/mkdirhier.c", "src/dirname.c", "inc/utils/mkdirhier.h"], [("recursive creation", "src/mkdirhier.c")])
p("C53", "Line reading returns every line of the input intact",
  "Reading a stream line by line returns every line in order with its exact content, whatever its length relative to the buffer, the line ending, embedded special bytes or a missing final newline; a line that does not fit is reported. Nothing is written outside the buffer.",
  ["inputs", "configurations"], "every stream up to a length over letters, carriage return, newline and comment characters, every buffer size",
  "No unit test covers it.",
  ["src/freadline.c", "src/gstring.c"], [("character loop with newline handling", "src/freadline.c")])
p("C54", "The random source is a reseeding keystream that never repeats across a fork",
  "Random bytes follow the keystream construction: between reseeds output does not depend on how requests are split, bytes handed out are erased from internal state, fresh entropy is mixed in after the documented amount of output and after a fork, so that parent and child never output the same stream. A bounded random number is always below its bound and every value below it is reachable.",
  ["histories", "configurations", "fault_sequences"], "every sequence of request sizes up to a depth around the internal block boundaries, forks at every point, with entropy controlled, against a reference stream",
  "Tests only draw numbers.",
  ["src/arc4random.c", "src/chacha_private.h", "inc/utils/arc4random.h"], [("ChaCha buffer with rekey", "src/arc4random.c")])
p("C55", "Hash functions equal their published definitions at every length and alignment",
  "Each hash function returns the value of its published algorithm for every input length, seed and alignment, reads only the given bytes, and its streaming form gives the same value for every way of splitting the input.",
  ["inputs", "configurations"], "every length up to several blocks, every alignment, single-bit content patterns, every split into up to three pieces, against independent reference implementations",
  "t_siphash24 covers one function; the others are only timed.",
  ["src/hashfunc/siphash24.c", "src/hashfunc/xxhash.c", "src/hashfunc/fasthash.c", "src/hashfunc/fnvhash.c", "src/hashfunc/murmur3_hash.c", "src/hashfunc/hsieh_hash.c", "src/hashfunc/cityhash.c"], [("block loop and tail switch", "src/hashfunc/*.c")])
p("C56", "Pseudo-random generators follow their published recurrences",
  "Each generator's output sequence from a given seed equals that of its published algorithm, and independent generator states do not influence each other.",
  ["histories"], "every sequence of calls on two states up to a depth from boundary seeds, against independent reference implementations",
  "t_xorrand and t_frand only look at distributions.",
  ["src/prng/xoroshiro.c", "src/prng/xorshift.c", "src/prng/romu-rand.c", "src/prng/frand.c", "inc/utils/splitmix.h"], [("state update", "src/prng/*.c")])
p("C57", "Memory-mapped files show exactly the file and release everything",
  "Mapping a file gives exactly its bytes for every offset and length asked, refuses what lies outside it, and writes through a writable mapping reach the file. Unmapping and closing release every mapping and descriptor, also on failure.",
  ["inputs", "configurations", "fault_sequences"], "every file size, offset and length around page boundaries, every mode, every failing system call",
  "mmaptest is an interactive tool.",
  ["src/posix/mmap.cpp", "inc/utils/mmap.h"], [("page-aligned windows", "src/posix/mmap.cpp")])
p("C58", "Running out of memory is an error, not a crash or a corruption",
  "When any single memory allocation fails, or one and all that follow it within an operation, each operation that has a way to report failure (a null result or an error number) either reports it or succeeds all the same; the object it worked on keeps what it held (a failed append, copy, escape or insertion changes nothing), is safe to use and delete, and no memory or file descriptor is leaked. (Macros and allocators documented to abort - queues, vectors, fast-ht, arc4random - are outside.)",
  ["fault_sequences", "histories"], "every allocation of every operation sequence up to a depth failing in turn, for every container and string operation",
  "No test injects allocation failure.",
  ["src/hashtable/hashtab.c", "src/hashtable/fast-ht.c", "src/hashtable/bloom.c", "src/hashtable/xorfilter.c", "src/gstring.c", "src/mempool.c", "src/arena.c", "src/fts.c", "src/strsplit.c", "src/pack.c", "src/escape.c", "inc/fast/bitset.h"], [("error paths", "everywhere memory is allocated")])

# ---------------------------------------------------------------- the rest of the library
p("C43", "The progress bar shows the right amount on any terminal and nothing elsewhere",
  "On a terminal each update shows one line: the current and total amount and a bar of fixed width (half the terminal, at most 50 cells) whose per cent is the rounded-down share done (never above 100) and whose filled part is the rounded-down share of the width. The line is written again only when it changes, clearing the previous one first. Without a total only the amount is shown. Where there is no terminal nothing is ever written. Finishing writes exactly the clearing and the newline asked for.",
  ["inputs", "configurations"], "every terminal width (also unknown and tiny ones), totals and amounts over the whole 64-bit range, every history of updates",
  "t_progress draws one bar on whatever terminal runs it and looks at nothing.",
  ["src/progbar.c", "inc/utils/progbar.h"], [("line construction and change detection", "src/progbar.c")])
p("C44", "Alignment, powers of two, bounded indexes and time units are exact",
  "Aligning up or down to a power of two yields the nearest multiple on that side, the tests for being aligned or a power of two answer correctly, and rounding to the next power of two yields the smallest one not below (whenever the result is representable), for every integer type and pointers, evaluating arguments once. A sanitised array index is itself when below the size and 0 otherwise. Units of time convert exactly whenever the result fits in 64 bits, and clock readings are converted exactly.",
  ["inputs"], "every value, alignment, size and type within the representable range",
  "No test covers these; other parts rely on them.",
  ["inc/utils/typeutils.h", "inc/utils/nospec.h", "inc/utils/utils.h", "inc/fast/tmutils.h"], [("bit arithmetic macros and templates", "inc/utils/typeutils.h"), ("index mask", "inc/utils/nospec.h"), ("duration units", "inc/utils/utils.h")])
p("C45", "A constant database finds exactly the stored keys and stays inside its file",
  "Looking up a key in a well-formed database file yields the stored value with its length if the key is stored and -ENOENT otherwise, also for keys with equal or zero hashes, for empty keys and full tables. Files that are too short or cannot be opened are refused with a negative error and leave nothing open. No damaged file makes a lookup read outside the mapped file or return a value that is not wholly inside it.",
  ["inputs", "histories"], "every set of keys and table layout, every damaged byte",
  "There is no test for it.",
  ["src/cdb_read.c", "src/cdb_reader.h"], [("probe sequence and bounds checks", "src/cdb_read.c")])
p("C46", "Compressing and uncompressing in pieces loses and invents nothing",
  "Whatever the data, however they are cut into pieces, whatever the size of the output buffer and however much of it the output function accepts each time, compressing yields one complete stream of exactly the data, and uncompressing a stream yields exactly its data, also when something follows the stream. An output function that accepts nothing makes the call fail; damaged streams are not reported complete; what is delivered is always a correct prefix.",
  ["inputs", "faults"], "every cutting, buffer size, acceptance pattern, refused output and damaged byte",
  "There is no automatic test for it.",
  ["src/zbuf_c.c", "src/zbuf_unc.c", "inc/zlib/zbuf.h"], [("output buffer with partial draining", "src/zbuf_c.c"), ("draining at the end", "src/zbuf_unc.c")])
p("C47", "Reading a password returns what was typed, unseen, and restores the terminal",
  "Reading a password from a terminal shows the prompt, switches echo off while the password is typed, and leaves the terminal settings as they were on every path, also when memory runs out, input ends or the passwords differ. The password is the line without its line end (an empty line is an empty password). With a confirmation the same word has to be typed twice, three mismatches give -EINVAL and missing memory -ENOMEM; end of input or a failing terminal call gives a negative result and leaves the caller's pointer alone. Without a terminal nothing is prompted. No descriptor or memory is left behind.",
  ["inputs", "faults"], "every sequence of lines, echo mode, source (standard input or /dev/tty) and failing call",
  "t_readpass needs a person and is not among the automatic tests.",
  ["src/readpass.c", "inc/utils/readpass.h"], [("echo switching and error paths", "src/readpass.c")])
p("C48", "Interface and host lookups return exactly the addresses that match",
  "Listing interfaces yields each interface once with exactly its addresses of the wanted families; asking for one interface yields exactly its addresses or -ENOENT when there is no such interface (a name that is too long is none). Resolving a name yields the wildcard address for an empty or '*' name, the address itself for a dotted one, an interface's addresses for its name, and otherwise the host's addresses of the wanted families in order. When the system fails the result is negative, never an empty success. An address becomes its standard text only in a buffer that holds it, and never writes beyond it. Lists and sockets are given back.",
  ["configurations", "faults"], "every interface list, lookup result, name, family filter and buffer size",
  "t_cresolve prints whatever the machine has.",
  ["src/c_resolve.c", "inc/utils/resolve.h"], [("grouping by interface and family filter", "src/c_resolve.c")])
p("C49", "Diagnostics are one complete line with the right reason and exit status",
  "error(), warn() and die() print exactly one line ending in one newline: the program name when set, the message (cut only near 2048 bytes) and for error() with an error number of either sign its text and number. error() ends the program exactly when its status is not 0, with that status; die() always ends it with failure; warn() never. Exceptions for failed system calls carry the error number and a description made of the message and the system's text for the error, cut to fit, for messages of every length.",
  ["inputs"], "every message length (with and without a newline), error number, status and program name",
  "Tests use error() only to report their own failures.",
  ["src/error.c", "inc/error.h", "src/posix/syserror.cpp", "src/sysexception.cpp", "inc/syserror.h"], [("line assembly in a fixed buffer", "src/error.c"), ("description assembly", "src/sysexception.cpp")])
p("C60", "A generated option parser does exactly what its description says",
  "For every valid description mkgetopt.py generates C that compiles, with a function PREFIX_parse() that does what the description says for every list of arguments: members start at their defaults (a placeholder without a default is left alone); an option, in its long, abbreviated or short form, clustered or not, sets its member to its argument's value, the last use counting; booleans become 1; an option with an optional argument used without one adds one; callbacks are called once per use, in order, with the argument or NULL. NAME_present is set exactly for options used with good values. A number that is none or does not fit the member's type, a size with an unknown suffix or too large, a missing argument and an unknown or ambiguous option are each counted in the result, the other options still being processed. What is not an option stays, in order, in argv_inputs and argv_count; %nopermute, %nohelp, %noversion, %prefix and %usage_call do what the manual says, --help and --version print their text and exit with 0, and a parser can be used again.",
  ["inputs", "configurations"], "every list of up to five arguments over each description's alphabet; boundary values in every form; 21 descriptions, including every way of quoting any five of the six fields",
  "No test runs a generated parser on more than a fixed command line.",
  ["tools/mkgetopt.py", "src/getopt_long.c", "inc/utils/getopt_long.h"], [("the code templates", "tools/mkgetopt.py")])
p("C59", "A daemon is detached from everything; binding to a CPU binds exactly that thread",
  "After daemonize() succeeds, exactly one process goes on: not a child of the caller, in a session of its own which it does not lead, in the given directory (/tmp by default), with umask 022, the three standard descriptors on /dev/null (readable, writable, writable) and no other descriptor opened or closed; the calling process has ended with status 0. If forking fails or the directory cannot be entered, a negative error is returned. Binding to a CPU gives exactly the named process or thread exactly that CPU, and no other thread.",
  ["configurations", "faults"], "every subset of standard descriptors open before, every directory argument, umask and failing fork",
  "No test starts a daemon.",
  ["src/daemon.c", "inc/utils/daemon.h", "src/posix/linux_cpu.c", "inc/utils/cpu.h"], [("double fork", "src/daemon.c")])

p("C61", "Stand-ins for C library functions and the Fletcher sum match their definitions",
  "strlcpy copies what fits, always terminates a destination of size > 0, never writes past it and returns the length of the source. strcasecmp and strncasecmp order two texts as their lower-cased bytes, read no byte after a terminator or past the given count. ftw calls the function exactly once for the starting point and every object below it, a directory before what is in it, with its path, its stat data and its kind (file, directory, symbolic link); it does not follow links below the starting point, stops at the first non-zero result and returns it, reports a missing starting point, and leaves no descriptor open and the working directory as it was. The Fletcher checksum of any data is the one its definition gives, whatever the length and alignment.",
  ["inputs"], "every text up to three characters over ten and every pair of characters, every size; checksums around the internal block length; every tree of up to three objects with every place to stop",
  "The stand-ins are not compiled on the test host and have no tests.",
  ["src/strlcpy.c", "src/strcasecmp.c", "src/ftw.c", "src/fletcher-cksum.c"], [("stand-ins", "src/strlcpy.c")])
p("C62", "A growable byte buffer holds exactly what was put in",
  "After any sequence of appends, reservations, growths, advances and resets the buffer holds exactly the bytes put in, in order, its length is their number and its capacity (never below the length, what was reserved, or the size it was made with) is memory it owns; growing keeps the contents, a reset keeps the capacity; nothing outside the capacity is touched; releasing it frees everything and leaves it empty.",
  ["histories"], "every sequence of up to five operations on buffers of five initial sizes",
  "No test exercises the buffer.",
  ["inc/fast/buf.h"], [("growth", "inc/fast/buf.h")])

p("C63", "The embedded printf prints exactly what C's printf prints",
  "For the conversions the embedded printf supports (%d %i %u %o %x %X %p %c %s %%, with the flags - + space # 0 in this order, a width, a precision, either of them as an argument, and h, l or L) its printf, its sprintf and its v_XPRINT put out exactly the characters C's printf does, for every argument of the converted type, however wide the field; %N prints the four bytes of an integer from the highest to the lowest as an IP address, %H from the lowest to the highest. sprintf ends its text with a zero byte and returns its length. No argument is skipped or read twice, no byte behind a string or a format is read, and a format that ends in the middle of a conversion ends the output.",
  ["inputs"], "every conversion with every flag combination, 18 widths, 17 precisions and four modifiers on 32 boundary values; sequences of conversions",
  "It is not compiled on the test host; its own test prints a few lines to look at.",
  ["src/emb-printf.c"], [("conversions", "src/emb-printf.c")])
p("C64", "Weeding dependency files removes exactly the ones that are not valid",
  "Run over dependency files as gcc -MM -MF writes them, depweed prints, in order, exactly the names of those that contain a rule all of whose prerequisites exist as files, and leaves them as they are; it deletes those that are empty, contain no rule or name a file that does not exist; it touches nothing else, passes over names that do not exist, and ends with status 0. The way names are written (spaces, # and $ as gcc escapes them, drive letters, rules over several lines) makes no difference.",
  ["inputs"], "every rule of up to three names out of fifteen in six targets and three layouts; truncated and odd files",
  "The tool has no tests.",
  ["tools/depweed.py"], [("validate_dep", "tools/depweed.py")])

p("C65", "Containers use exactly the memory manager they are given",
  "A hash table (with its iterators) or a memory pool takes all its memory from the memory manager it was given, calls it with the manager's own context, gives every block back to it exactly once by the time it is deleted, and never uses malloc instead. When the manager refuses, creation and insertion report -ENOMEM, contents stay as they were and nothing is leaked; an existing key can still be replaced. The managers the library makes behave alike: malloc's, xmalloc's (which ends the program with a message naming the size rather than fail), a pool's, an arena's, and one made without a release function, whose blocks are never changed.",
  ["histories", "fault_sequences", "configurations"], "every sequence of requests and container operations up to a depth on seven kinds of manager, the manager failing from any request on",
  "Tests only use malloc's manager, and it never fails.",
  ["src/memmgr.c", "inc/utils/memmgr.h", "src/mempool.c", "src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c"], [("alloc, free and context", "inc/utils/memmgr.h")])
p("C66", "Filters keep the false positive rate they were made for and compare right",
  "A Bloom filter made for n >= 1000 elements and error rate e and filled with n distinct elements reports at most about a fraction e of other elements (standard and counting); a scalable one at most e times the sum of 0.9^i over its levels, even after growing to 64 times its size. Xor filters report about 1 in 256 (8-bit) or 1 in 65536 (16-bit) and take no more bits per element than they promise. Two Bloom filters compare equal exactly when kind, parameters, salt and contents are the same.",
  ["inputs", "histories"], "every kind, four sizes, six error rates, two kinds of elements and four salts; every pair of short histories for comparison",
  "The tests print the rates; none checks one, none compares two filters.",
  ["src/hashtable/bloom.c", "src/hashtable/bloom_internal.h", "src/hashtable/xorfilter.c", "inc/utils/bloom.h"], [("false positive rate", "src/hashtable/bloom.c")])

p("C67", "The semaphores for systems without them are counting semaphores",
  "However threads interleave, and even if waits wake for no reason, the semaphores built from a mutex and a condition let exactly as many waits through as there were posts beyond the initial value: a wait returns only by taking one of these, never blocks while one is left, and a try takes one at once or fails with EAGAIN exactly when there is none. What a thread wrote before a post is seen after the wait it lets through; a thread whose wait has returned may destroy and release the semaphore at once. A failed init returns -1, sets errno and leaves nothing behind. The blocking queue works on them.",
  ["schedules", "fault_sequences"], "every interleaving of two to five threads with up to four operations each, every failure of init",
  "They are not compiled on the test host.",
  ["src/posix/darwin_sem.c", "inc/Darwin/semaphore.h"], [("lock, count, broadcast", "src/posix/darwin_sem.c")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
