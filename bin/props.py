SEQ = "every operation sequence in the bounds is executed on the real code and compared step by step with a plain reference model"
FS = ["open", "creat", "mkostemp", "mkstemp", "write", "pwrite", "ftruncate", "mmap", "munmap", "msync", "fsync", "fdatasync", "close", "rename", "link", "unlink"]
PROPS = {
 "C01": dict(level="model_checking", harness={"lf_c01": dict(src="lf.c", defs="-DP_C01", mode="mc11"), "lfbig_c01": dict(src="lfbig.c", defs="-DP_C01")}, note="every interleaving and permitted older-value read of one producer and one consumer (1-4 operations each) for four sizes, every fill and start offset; plus every one-thread sequence of 8-10 operations; real code under a controlled scheduler with a C11 memory model"),
 "C02": dict(level="model_checking", harness={"lf_c02": dict(src="lf.c", defs="-DP_C02", mode="mc11"), "lfbig_c02": dict(src="lfbig.c", defs="-DP_C02")}, note="every interleaving of 2-4 threads with 1-3 operations each (waiting and non-waiting, enqueue and dequeue) for sizes 1-4 at fills and offsets with wrap-around, up to 9 permitted older-value reads; linearizability decided for each history; one-thread sequences to depth 10"),
 "C03": dict(level="model_checking", harness={"lf_c03": dict(src="lf.c", defs="-DP_C03", mode="mc11"), "lfbig_c03": dict(src="lfbig.c", defs="-DP_C03"), "lf_wrap": dict(src="lfbig.c", defs="-DP_C03 -DWRAPAROUND", mode="plain")}, note="every interleaving of 2-4 threads over single/multi producer/consumer variants, single, bulk and burst operations, batch sizes 1-7, fills and offsets with wrap-around, up to 2-9 permitted older-value reads; linearizability decided for each history"),
 "C08": dict(level="model_checking", harness={"hashtab_c08": dict(src="hashtab.c", defs="-DP_C08", wrap=["arc4random"])},
   note="exhaustive operation sequences (depth 4-6 over 3-5 colliding keys, 8 table configurations) on the real table vs a map"),
 "C09": dict(level="model_checking", harness={"hashtab_c09": dict(src="hashtab.c", defs="-DP_C09", wrap=["arc4random"])},
   note="exhaustive operation sequences, every iterator kind over each table state reached"),
 "C10": dict(level="model_checking", harness={"fastht": dict(src="fastht.c", wrap=["getentropy"]), "fastht_nosimd": dict(src="fastht.c", defs="-DNOSIMD -I/verif/h/nosimd", wrap=["getentropy"])},
   note="exhaustive operation sequences (depth 4-6, 2-5 colliding keys, 12 prefilled tables) on the SIMD and the portable code vs a map"),
 "C11": dict(level="model_checking", harness={"filters_c11": dict(src="filters.c", defs="-DP_C11", wrap=["getentropy"])},
   note="exhaustive add/remove sequences on tiny filters of every kind, counter saturation and growth runs vs a multiset"),
 "C12": dict(level="exploration", rule="save a filter of each kind/shape, then load it intact, with each single bit flipped, cut at each length or extended; each (filter, damage, way of loading) is distinct",
   harness={"filters_c12": dict(src="filters.c", defs="-DP_C12", wrap=["getentropy"] + FS)}, note="every single-bit flip, truncation and extension of saved files of every kind, both ways of loading"),
 "C13": dict(level="exploration", rule="a key set (structured universe x size, or every subset of a small universe), a width and a seed sequence; building on it and querying all keys; empty sets are trivial",
   harness={"filters_c13": dict(src="filters.c", defs="-DP_C13", wrap=["getentropy"])}, note="every size 1..120 of five structured key sets and every subset of an 11-key universe, both widths, controlled seeds"),
 "C14": dict(level="exploration", rule="save a filter of each width/size, then load it intact, with each single bit flipped, cut at each length or extended; each (filter, damage, way of loading) is distinct",
   harness={"filters_c14": dict(src="filters.c", defs="-DP_C14", wrap=["getentropy"] + FS)}, note="every single-bit flip, truncation and extension of saved files, both ways of loading"),
 "C15": dict(level="fault_enumeration", rule="one save over an old or no file; each intercepted system call proceeds, fails with each listed errno, or is the crash point, up to two (thorough: three) faults; after a crash unsynced content is whole, zeroed or empty",
   harness={"filters_c15": dict(src="filters.c", defs="-DP_C15", wrap=["getentropy"] + FS)}, note="every crash point and single/double system-call failure of saving each filter kind on the real code"),
 "C16": dict(level="model_checking", harness={"mem_c16": dict(src="mem.c", defs="-DP_C16")}, note="exhaustive alloc/free sequences on pools of every kind; every memory size and misalignment for caller-supplied memory"),
 "C17": dict(level="model_checking", harness={"mem_c17": dict(src="mem.c", defs="-DP_C17")}, note="exhaustive request-size sequences over boundary sizes, several chunk sizes"),
 "C18": dict(level="model_checking", harness={"vect": dict(src="vect.c"), "vect_big": dict(src="vect.c", defs="-DBIGELEM")}, note="exhaustive vector operation sequences (20 operations, depth 4; 7 operations, depth 6) on int and 6-byte elements"),
 "C19": dict(level="model_checking", harness={"lists": dict(src="lists.c")}, note="exhaustive operation sequences over 5 nodes and two lists for SL, DL, list_head and hlist"),
 "C20": dict(level="model_checking", harness={"queue": dict(src="queue.c")}, note="exhaustive operation sequences for sizes 1-7, static and dynamic"),
 "C21": dict(level="model_checking", harness={"bitset": dict(src="bitset.c")}, note="exhaustive operation sequences at word boundaries; every single bit of every length to 200"),
 "C24": dict(level="model_checking", harness={"heap": dict(src="heap.cc")}, note="exhaustive insert/remove sequences and every starting array up to 10 elements"),
 "C22": dict(level="model_checking", harness={"gstr_c22": dict(src="gstr.c", defs="-DP_C22")}, note="exhaustive operation sequences on two growable strings from small capacities; every short stream read by line; growth from every length to every length"),
 "C23": dict(level="exploration", rule="a template over the alphabet; every template up to the length is distinct; the empty one is trivial", harness={"gstr_c23": dict(src="gstr.c", defs="-DP_C23")}, note="every template up to length 6 (9 characters) and 9 (5 characters) against a reference expander"),
 "C30": dict(level="exploration", rule="a text, an escape set and an escape character; all distinct", harness={"gstr_c30": dict(src="gstr.c", defs="-DP_C30")}, note="every 0-2 byte text over all bytes, longer ones over a special alphabet, every one-byte escape set; every escape sequence text up to length 5"),
 "C31": dict(level="exploration", rule="a format and a value pattern; every one is distinct", harness={"txt_c31": dict(src="txt1.c", defs="-DP_C31")}, note="every format of up to 2 items over all types and counts (3 over a reduced set) with every buffer size up to the need plus one, every raw format text up to length 4, every count around the 32- and 64-bit limits, against a reference encoder"),
 "C32": dict(level="exploration", rule="an input text; every one is distinct", harness={"txt_c32": dict(src="txt1.c", defs="-DP_C32")}, note="every input up to length 5 over 8 byte values, up to 10 over 3, every byte at every place of a group, every length to 230; every split into three pieces and every output size"),
 "C33": dict(level="exploration", rule="a text or buffer; every one is distinct", harness={"txt_c33": dict(src="txt1.c", defs="-DP_C33")}, note="every hex text up to length 4 over 15 characters and every pair of characters, every output size; dumps of every length to 70 in both offset modes, every failing write"),
 "C34": dict(level="exploration", rule="a text and a base, or a number; every one is distinct", harness={"txt_c34": dict(src="txt2.c", defs="-DP_C34")}, note="every text up to length 4 (12 characters, 10 bases) and 6 (6 characters, 4 bases), values within 2 of every power of two in every base, every suffix text up to length 3, human sizes at every hundredth of every unit"),
 "C35": dict(level="exploration", rule="a text and a delimiter set; every one is distinct", harness={"txt_c35": dict(src="txt2.c", defs="-DP_C35")}, note="every text up to length 4 (8 characters, 8 delimiter sets) and 7 (4 characters), every array size, up to 40 fields of every shape, every single delimiter"),
 "C36": dict(level="exploration", rule="a text and a separator set; every one is distinct", harness={"txt_c36": dict(src="txt2.c", defs="-DP_C36")}, note="every text up to length 5 (8-9 characters) and 7-8 (4-5 characters), every array size, against reference grammars"),
 "C37": dict(level="exploration", rule="a text; every one is distinct", harness={"txt_c37": dict(src="txt2.c", defs="-DP_C37")}, note="every text up to length 5 (9 characters) and 8 (4 characters), every character at every place, every buffer size"),
 "C38": dict(level="exploration", rule="a text, an address or a mask; every one is distinct", harness={"txt_c38": dict(src="txt3.c", defs="-DP_C38")}, note="every text up to length 8 (5 characters) and 5 (11 characters), every combination of 26 octet texts, every mask form, long texts to 260, every buffer size, every mask two bits away from a prefix"),
 "C39": dict(level="exploration", rule="an identifier, a text, or answers of clock and random source; every one is distinct", harness={"txt_c39": dict(src="txt3.c", defs="-DP_C39", wrap=["getentropy", "getrandom", "gettimeofday", "clock_gettime"])}, note="every byte value at every place, every pair of bits, every one-character and selected two-character deviations, every length and buffer size, clock and random source answers and failures"),
 "C40": dict(level="exploration", rule="an option table, an ordering mode and an argument list; lists with operands only are trivial", harness={"txt_c40": dict(src="txt3.c", defs="-DP_C40")}, note="every argument list up to 2 over 33 words (4 tables, 8 option strings, both orderings), 3 over 12 and 6 over 5, against the C library's implementation"),
 "C41": dict(level="exploration", rule="a text and a pattern; every one is distinct", harness={"strm": dict(src="strm.cc")}, note="every pattern up to 6 and text up to 10 over two characters, up to 4 and 7 over three, 3 and 5 over five with zero and high bytes; long periodic patterns; four algorithms against the definition"),
 "C42": dict(level="exploration", rule="a value and an alignment; every one is distinct", harness={"txt_c42": dict(src="txt3.c", defs="-DP_C42")}, note="every byte value at every place over four backgrounds and eight alignments, every pair of bits, every 16-bit value; all widths, both orders"),
 "C50": dict(level="model_checking", harness={"fts": dict(src="fts.c")}, note="every tree of up to 3-5 nodes of ten kinds under nine option sets and three orders; every instruction at every entry; a monitor predicts each entry"),
 "C51": dict(level="fault_enumeration", rule="a set of existing copies, a limit, and a fault or crash at one of the system calls; every one is distinct", harness={"os_c51": dict(src="os1.c", defs="-DP_C51", wrap=["rename", "unlink", "stat", "lstat", "link", "mkdir"])}, note="every set of existing copies up to 4 kept, every system call failing or being the last; histories of up to 8 rotations; sizes around whole MBs; path lengths around the limit"),
 "C52": dict(level="exploration", rule="a path, a prior state, acts of another process and faults; every one is distinct", harness={"os_c52": dict(src="os1.c", defs="-DP_C52", wrap=["mkdir", "mkdirat", "stat", "lstat"])}, note="every path up to length 6 over three characters in ten prior states, another process creating at every call, every failing mkdir; dirname of every text up to 8 with every buffer size"),
 "C53": dict(level="exploration", rule="a stream, a buffer size and the place of a read error; every one is distinct", harness={"os_c53": dict(src="os1.c", defs="-DP_C53", wrap=["mkdir"])}, note="every stream up to length 7 over three and 5 over six characters, every buffer size, a read error at every place"),
 "C57": dict(level="model_checking", harness={"mmapf": dict(src="mmapf.cc", wrap=["open", "fstat", "ftruncate", "mmap", "munmap", "close"])}, note="every sequence of up to 3 operations (thorough 4) over windows around page boundaries, seven file sizes, five modes; every system call failing"),
 "C04": dict(level="model_checking", harness={"mt_c04": dict(src="mt.c", defs="-DP_C04", mode="mc11")}, note="every interleaving (real code under a controlled scheduler, race-checked) of 2-5 threads with 1-4 operations each for capacities 1-5, every fill and offset, waits interrupted by signals, failing initialization; linearizability decided for each history"),
 "C05": dict(level="model_checking", harness={"mt_c05": dict(src="mt.c", defs="-DP_C05", mode="mc11")}, note="every interleaving of the submitter(s) and 1-3 workers over job lists (failing, mutually waiting, submitting further jobs), waits interrupted by signals, more jobs than the queue holds, every failure of starting"),
 "C06": dict(level="model_checking", harness={"mt_c06": dict(src="mt.c", defs="-DP_C06", mode="mc11")}, note="every interleaving of the submitter(s) and 1-3 workers over work lists (directed and dealt out, failing, mutually waiting, submitting further work), waits interrupted by signals, every failure of starting"),
 "C54": dict(level="exploration", rule="a sequence of requests, forks and threads and an entropy source; every one is distinct", harness={"rand_c54": dict(src="rand.c", defs="-DP_C54", wrap=["getentropy"])}, note="every sequence of 2 of 28 requests, 3 of 14 and 4 of 6 around the block and reseed boundaries, every size to 2200 from three states, forks at every point, other threads, degenerate entropy; against a reference keystream"),
 "C56": dict(level="exploration", rule="a generator, seeds and an order of calls; every one is distinct", harness={"rand_c56": dict(src="rand.c", defs="-DP_C56", wrap=["getentropy"])}, note="every interleaving of 8 calls on two states from boundary seeds, runs from every seed of up to two bits, for eight generators; against the published recurrences"),
 "C55": dict(level="exploration", rule="a function, length, alignment or split of the input; every one is distinct", harness={"hash": dict(src="hash.c")}, note="14 functions on every length up to 400 (thorough 1200), 8 alignments, 7 seeds, 6 patterns and every single-bit input, in heap blocks that end where the input ends; streaming forms for every split in three pieces and every equal split; against references that are themselves checked on published vectors"),
 "C07": dict(level="model_checking", harness={"htmt": dict(src="htmt.c", mode="mc11")}, note="every interleaving (real code under a controlled scheduler, race-checked) of 2-4 threads with 1-4 operations each on equal, colliding and distinct keys, in tables that grow and tables that do not; linearizability decided for each history"),
 "C58": dict(level="fault_enumeration", rule="an operation sequence and the allocation that fails in it (alone, or with all later ones); every one is distinct", harness={"oom": dict(src="oom.c", wrap=["getentropy", "arc4random"])}, note="every allocation of every operation in every sequence up to depth 2-3 (hash table, strings), 5-6 (pools, arenas), of creation, growth, saving and loading of filters, of walks with options and children, of splitting and unpacking, failing alone or with all later ones"),
"C49": dict(level="exploration", rule="a message, an error, a status and a program name; every one is distinct", harness={"diag": dict(src="diag.cc", wrap=["exit"])}, note="every message length up to 39 and around the 2048-byte limit, nine errors of either sign; exceptions with messages and reasons around their 1024-byte limit"),
"C43": dict(level="exploration", rule="a terminal width, a total, a display mode and a history of increments; every one is distinct", harness={"tty_c43": dict(src="tty.c", defs="-DP_C43")}, note="every width up to 61 and several above, totals from 0 to 2^64-1, every history of three of eight increments, every amount of every total up to 60, on a real pseudo-terminal"),
"C47": dict(level="fault_enumeration", rule="what is typed, where, and what fails; lists that differ only in line ends are trivial", harness={"tty_c47": dict(src="tty.c", defs="-DP_C47", wrap=["fopen", "tcgetattr", "tcsetattr"])}, note="every list of up to two of nine lines, six of three; at a pseudo-terminal with a person who waits for prompts, in every echo mode, as standard input or /dev/tty, with failing terminal calls and exhausted memory"),
"C48": dict(level="exploration", rule="the system's interface list and lookup results, a name and a filter; every one is distinct", harness={"resolv": dict(src="resolv.c", wrap=["getifaddrs", "freeifaddrs", "socket", "close", "ioctl", "if_nametoindex", "getaddrinfo", "freeaddrinfo"])}, note="every interface list of up to three addresses over three names and four families (four over two names), every filter, nine names; fifteen names to resolve with every lookup outcome; addresses as text in buffers of 0 to 63 bytes"),
"C44": dict(level="exploration", rule="a value, its type and an alignment, size or unit; every one is distinct", harness={"arith": dict(src="arith.cc", wrap=["clock_gettime", "gettimeofday"])}, note="every 16-bit value and every sum and difference of neighbours of two powers of two, with every alignment, in the signed and unsigned types; every index and size up to 384 and around every power of two; every count up to 65535 and around every limit in every unit"),
"C45": dict(level="exploration", rule="a set of keys in an order and a table layout, or a damage; every one is distinct", harness={"cdb": dict(src="cdb.c", wrap=["mmap", "__assert_fail"])}, note="every ordered choice of up to three of ten keys (with equal hashes, a hash of zero, the empty key, a prefix) in four layouts; every byte of the tables and records damaged ten ways, alone and with pointers to the last bytes; a hole is mapped behind the file"),
"C46": dict(level="exploration", rule="data, how they are cut into pieces, an output buffer and what the output function accepts; every one is distinct", harness={"zb": dict(src="zb.c", libs="-lz")}, note="nine lengths up to 1000 of four kinds, every level and window class, seven buffer sizes, four cuttings, four ways of accepting; streams with something after their end, damaged or cut at every byte; output refused at each of the first six calls"),
"C59": dict(level="fault_enumeration", rule="the standard descriptors that are open, a directory, a umask and a failing fork; every one is distinct", harness={"daemon": dict(src="daemon.c", wrap=["fork"])}, note="every subset of open standard descriptors, six directories, three umasks, each fork failing, in processes of their own; binding to each of the first eight CPUs in each of three ways"),
    "C60": dict(level="exploration", rule="a description, a list of arguments and whether the parser was used before; all distinct", harness={"c60": dict(pre="gen_c60.py", wrap=["error"])}, note="21 descriptions generated and compiled from the tree: every option type with and without optional arguments, callbacks, placeholders, directives, every way of quoting any five of the six fields; every list of up to four (thorough: five) arguments from each description's alphabet, every value of a boundary list in every form"),
    "C61": dict(level="exploration", rule="texts and sizes, words, a tree with a place to stop; every one is distinct", harness={"compat_c61": dict(src="compat.c", defs="-DP_C61")}, note="every pair of characters, texts up to 2 (thorough: 3) over ten characters, every copy up to 20 bytes; checksums around the block length; every tree of 2 (3) objects, every place to stop"),
    "C62": dict(level="exploration", rule="a sequence of operations; every one is distinct", harness={"compat_c62": dict(src="compat.c", defs="-DP_C62")}, note="every sequence of up to 4 (thorough: 5) operations on buffers of five initial sizes"),
    "C63": dict(level="exploration", rule="a conversion with flags, width, precision and modifier, or a sequence of conversions; every one is distinct", harness={"emb": dict(src="emb.c")}, note="every conversion with every flag, 18 widths, 17 precisions, four modifiers on 32 boundary values; every sequence of up to 3 (thorough: 5) conversions out of 15"),
    "C64": dict(level="exploration", rule="a dependency file; every one is distinct", harness={"depweed": dict(src="depweed.c")}, note="every rule of up to 2 (thorough: 3) names out of fifteen, six targets, three layouts, with and without a last line end; odd files"),
    "C65": dict(level="model_checking", harness={"memmgr": dict(src="memmgr.c")}, note="every sequence of up to 5 (thorough: 6) requests on seven kinds of manager; tables under every sequence of up to 4 (5) operations on each, pools of up to 7 (9), the manager failing from any of its first requests on"),
    "C66": dict(level="exploration", rule="a filter, its size, error rate, salt and elements, or a pair of histories; every one is distinct", harness={"rate": dict(src="rate.c", wrap=["getentropy"], mode="plain")}, note="every kind, four sizes, six error rates, two kinds of elements, four salts, growth to 64 times the size, 200,000 (thorough: 2,000,000) lookups each; every pair of histories up to 2 (3) operations"),
    "C67": dict(level="model_checking", harness={"sem": dict(src="sem.c", mode="mc11")}, note="every interleaving of 2-5 threads with 1-4 operations each from values 0-3, up to 3 wakeups for no reason; hand-over with destruction right after the wait; every failure of init; the blocking queue on these semaphores; linearizability decided for each history"),
}
