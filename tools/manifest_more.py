TYW = "type-level witnesses (pass and must-be-rejected programs decided by the type checker)"
CHECKS["C22"] = (TYW + "; gated value numbering; known-bits/interval abstract interpretation over a partition of the argument space", "All listed types; has_single_bit is decided for every value at each unsigned width.")
CHECKS["C20"] = (TYW + "; gated value numbering of calls with extern probes", "Listed callables, argument counts 0-3 and the value categories of binder and arguments.")
CHECKS["C21"] = (TYW + "; gated value numbering of element accesses with extern probes", "Listed element type lists and lengths up to 5, all value categories.")
SEG = "abstract interpretation of the lowered code over typestate segmentations (symbolic index ranges of raw/live/moved-from/released records with provenance, linear constraints over sizes, positions and counts, loops summarised by proved inductive states)"
CHECKS["C11"] = (SEG + "; typestate of every element slot and block", "Every listed operation from an arbitrary valid state, for all sizes, capacities, positions and counts; element and allocator are probes whose operations are interpreted. Single-pass sources are only refuted for small sizes.")
CHECKS["C12"] = (SEG + "; provenance of every position compared with the specified sequence", "As C11; appends from single-pass iterators are only refuted for small sizes.")
CHECKS["C13"] = (SEG + "; an exceptional edge at every element operation and allocation", "Every position at which an element operation or allocation can throw, all lengths; Array, LinkedList, SPSCQueue and the uninitialized algorithms.")
CHECKS["C14"] = (SEG + "; symbolic chain walk over runs of nodes", "Every listed operation from an arbitrary list, for all lengths and positions.")
CHECKS["C17"] = (SEG + "; ring positions modulo a symbolic power-of-two capacity", "Every operation from every position pair, wrapped or not: all dynamic capacities at once, static capacities 2, 4, 8 (and 32 in the thorough tier). One thread at a time; C16 covers the interleaving.")
CHECKS["C16"] = ("abstract interpretation of each side of the queue against an arbitrary other side (every load of the other position returns any value): ordering rules over the recorded atomic and slot accesses, ownership of positions, escape of plain cells", "Every push/emplace/pop/consume/read_available/write_available path, every position pair and every value the other side may publish, all dynamic capacities, static 2 and 8, with and without assertions. The acquire/release rules are the happens-before argument; loads that are justified otherwise (a dependency, an external fence) are not recognised.")
CHECKS["C18"] = ("abstract interpretation to a fixpoint over the delegate's abstract states (constructors closed under every operation), typestate of callables and their storage, indirect calls resolved; " + TYW, "All histories of construction, copy, move, swap, assignment and destruction over thirteen functor types (small, large, over-aligned, non-trivial, empty, mutable, const), function pointers and member pointers of three signatures; the functor's copy or move may throw in constructors and assignments.")
CHECKS["C28"] = ("abstract interpretation to a fixpoint over the object's ownership states; operating-system calls as typestate events; dlopen failure and string allocation failure as extra edges; " + TYW, "All histories of construction, open, close, move and destruction; the POSIX branch only. Lookups on a library that is not open are unspecified.")
CHECKS["C29"] = ("abstract interpretation with std::string as an abstract data type (content = byte ranges of the views) and a typestate for its character buffer; C-string arguments of OS calls checked for content, termination and liveness", "All view lengths; getenv/setenv/unsetenv/dlopen/dlsym call sites of the POSIX branch. Hand-written character copying is reported as undecided.")
CHECKS["C19"] = ("abstract interpretation of scopes that own the object: calls of the stored callable as events, every exit path (return, exception) enumerated, typestate of the stored callable; " + TYW, "Listed callables and argument packs; normal and exceptional scope exits.")
CHECKS["C23"] = ("abstract interpretation over symbolic positions and offsets (linear arithmetic on designated addresses, compared with the adaptor's position law); " + TYW, "All positions and offsets, over pointers, Array's iterators, nested adaptors and one probe iterator per category (with and without <=>).")
CHECKS["C24"] = ("abstract interpretation over symbolic bases, sizes, offsets and counts (linear arithmetic; 64-bit wrap-around represented), assertion build: every path that returns must satisfy the request's precondition; " + TYW, "All sizes below 2^40, offsets and counts below 2^62 or within 2^62 of 2^64; element types of six sizes; static extents 0-5 with the listed offsets and counts.")
CHECKS["C25"] = ("abstract interpretation over symbolic begin/end positions and indices, for probe containers of every iterator and end category and for the library's containers from any valid representation; " + TYW, "All positions, sizes and indices; five iterator categories times three kinds of end, constant and not; Array, LinkedList, Heap (ArrayView: also C24).")
CHECKS["C15"] = ("abstract interpretation with the comparator as an uninterpreted strict weak order: both answers of every comparison are followed while the order facts allow them, and the final heap order must be forced by the facts; " + "concrete sizes up to 2^33 elements", "push/emplace into every heap of 0-32 elements (0-255 thorough), pop from every heap up to 16 (61 thorough), construction and push/pop histories in any order, one operation on heaps of 255 ... 2^33 elements with a fixed order. Sizes in between are not enumerated.")
SIMDT = "abstract interpretation of the code lowered per instruction-set configuration (vector instructions as bit-level functions of the elements they load, typestate of every position: known equal/unequal, visited, moved), linear arithmetic over symbolic lengths and block counts"
CHECKS["C26"] = (SIMDT + "; concrete-shape runs at lengths around 2^31, 2^32 and 2^33", "All lengths, positions and contents for each listed configuration (AVX2, SSE4.x, SSE2, scalar), element type, iterator kind and execution policy; unaligned data. AVX-512 and MMX branches do not exist in the code.")
CHECKS["C27"] = (SIMDT, "All lengths for each listed configuration, element size and iterator/sentinel kind.")
CPP = "both compilers' preprocessors and type checkers over generated assertion programs; "
CHECKS["C30"] = (CPP + "constant expressions compared with the specified level sets, per subset of enabling macros and target option", "All 2^10 subsets of enabling macros (each by one compiler in the quick tier, both in the thorough one), the target options -mmmx ... -mavx512f of both compilers.")
CHECKS["C31"] = (CPP + "comparison of the definitions emitted for each documented use under different include orders (one definition rule), linkage of emitted definitions, module interface units built and imported", "Every header, the listed documented uses, sorted/reversed and seeded random include orders, g++ and clang++ in C++20 and C++23; modules with clang++ only.")
CHECKS["C32"] = (CPP + "cross targets preprocessed freestanding", "31 target triples of clang++, native g++, seven language modes; libc++ is represented by a stand-in <version> that defines its identification macro, Apple by its predefined macros.")
CHECKS["C33"] = (TYW + ": the compilers' constant evaluators decide whether each call is a core constant expression", "The listed operations and paths; int, memory-owning and movable elements; clang++ and g++ with assertions, clang++ without (thorough: g++ without, C++23); find and reverse in five SIMD configurations. A witness fixes sizes that select the path, not all sizes.")
CHECKS["C34"] = ("exception-flow analysis of the resolved IR: every exceptional edge of every call of user code (followed through inlined and called functions, address-taken functions for indirect calls) is followed to its ends, which must leave the operation; " + TYW, "All paths of the listed operations, with elements, callables, comparators, iterators and allocators whose every operation may throw (destruction and deallocation excepted). Heap::pop, find and reverse are declared noexcept and outside the first rule; exceptions thrown while destroying are outside it too.")
CHECKS["C35"] = (TYW + "; gated value numbering of constructions and addresses with extern probes", "The listed types, qualifications and alignments.")
