#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit titles, statements, anchors)."""
import json, os
H="h_malloc.c"; M="memory.c"; PG="pages.c"; R="random.c"; U="util.c"; N="new.cc"; C="chacha.c"
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),
                  why_tests_cant=why,anchors=dict(files=files.split(),mechanism=[dict(name=mech,where=files)])))
p("C01","Live allocations are exclusive and undisturbed",
  "From the moment an allocation is returned until the program frees or reallocates it, its whole usable range belongs to it alone: no other live allocation overlaps it, its bytes change only when the program writes them, and its pages stay readable and writable. This holds whatever other threads do with the allocator, whichever system calls fail, and across trims, forks and internal table growth.",
  "schedules histories fault_sequences configurations","every interleaving of API calls by any number of threads, every history, every pattern of kernel memory failures, every build configuration",
  "tests run one thread, one tiny history and no failing system call; overlap needs particular slot/slab/region reuse histories or interleavings",
  H+" "+PG+" "+M,"slot bitmaps and slab lists under the class lock; region table insert/delete under the region lock; page remapping only of wholly free slabs and retired regions")
p("C02","Size, alignment and access contract of every entry point",
  "Every successful allocation call returns memory that is at least as large as requested, aligned as requested (16 bytes at least, a page for the page-granular calls) and readable and writable throughout, while size-zero blocks are distinct and inaccessible. The reported usable size is never less than the requested size, and invalid alignments and overflowing sizes are refused with the documented error.",
  "inputs histories configurations","every size and alignment including overflow boundaries, reached through every history of the allocator, in every configuration",
  "tests call a few sizes once; slab geometry, recycled slabs and aligned placement depend on history and on where the kernel puts mappings",
  H+" "+PG,"size class tables, slot arithmetic, aligned page allocation")
p("C03","Reallocation preserves contents and is all-or-nothing",
  "A successful reallocation returns a block whose first min(old, new) bytes equal the old contents, whatever path (in place, shrink, move, page remapping, copy fallback) was taken. A failed reallocation returns NULL and leaves the old block live, unmoved and unchanged, and the program can keep using and later free it.",
  "histories fault_sequences schedules inputs","every pair of sizes and alignments, every history, every failing system call on the way, under concurrency",
  "tests do a handful of reallocations with no failing call; the move, shrink and remap fallbacks only run when system calls fail part-way",
  H+" "+M,"h_realloc paths: same class, in-place shrink, mremap move with memcpy fallback, allocate-copy-free")
p("C04","Memory exhaustion fails cleanly and recoverably",
  "When the kernel refuses memory at any point inside an allocation call, the call fails by returning NULL with errno ENOMEM (or the ENOMEM return value, leaving the caller's pointer untouched) or succeeds; it never crashes, corrupts or stops the program, and freeing never fails. Calls are refused only if memory really was refused or the request cannot fit, and once memory is available again the same calls succeed.",
  "fault_sequences histories schedules","every sequence of refused map, protect, unmap, remap and purge calls placed anywhere inside every API call of any history",
  "the only out-of-memory test asks for an impossible size; no test makes a system call fail part-way through an operation",
  H+" "+PG+" "+M,"NULL/ENOMEM propagation from the page layer, rollback of partially built regions and slabs, purge fallback on failed remap")
p("C05","Unexpected kernel errors stop the process",
  "If a memory-management system call the allocator depends on fails with any error other than out-of-memory, the process is stopped with a fatal error before the call returns to the program; it never continues on memory whose state is unknown.",
  "fault_sequences histories","every memory-management call site, every non-ENOMEM error code, in every history",
  "tests never make a system call fail", M,"errno checks after mmap, munmap, mprotect/pkey_mprotect, mremap and madvise")
p("C06","Every invalid free is caught",
  "Passing a pointer that is not the start of a live allocation (already freed, interior, misaligned, from a guard or gap, from a never-used area, stale after moving, or foreign memory) to free, sized free, the usable-size query or a realloc that has to move the block always stops the process. The call never returns normally and never takes the pointer for another block.",
  "histories inputs configurations","every kind of invalid pointer, presented at any point of any history, to each deallocating or querying entry point, in every configuration",
  "tests present each kind once after a history of one or two calls; quarantine position, slab recycling and table growth decide whether it is noticed",
  H,"slot bitmap, quarantine bitmap, slot alignment and metadata bounds checks; exact-match region table lookup")
p("C07","Racing deallocations of one pointer are caught",
  "If two threads concurrently free (or free and reallocate) the same allocation, then in every interleaving at least one of them stops the process; both calls returning normally is impossible.",
  "schedules","every interleaving of two racing deallocating calls on one pointer amid unrelated concurrent calls, small and large",
  "tests free twice from one thread, one after the other",
  H,"check-and-clear of slot and region state inside one critical section")
p("C08","Fresh memory is zero",
  "The requested bytes of memory from calloc read as zero in every configuration, and with zero-on-free every allocation, including the grown part of a moved block's usable range, reads as zero apart from bytes copied from the old block. Data of an earlier owner is never visible.",
  "histories fault_sequences configurations schedules","every history of reuse (slots, cached slabs, recycled slabs, regions), failing purges and remaps, every configuration",
  "tests read one fresh block in a fresh process; stale data only shows after particular reuse paths or failed purges",
  H+" "+M,"zeroing on free, calloc memset when zeroing is off, fresh mappings for large blocks, purge on failed remap")
p("C09","Freed memory is scrubbed or inaccessible at once",
  "When a free (or a reallocation that gives memory up) returns, the contents of a freed small block have been overwritten (with zero-on-free) and the pages of a freed large block or the released tail of a shrunk one can no longer be accessed. If the kernel refuses to remap or unmap them, their contents are discarded instead, unless it refuses that too.",
  "histories fault_sequences configurations schedules","every freed block in every history, including frees during which system calls fail",
  "tests look at one freed block with all system calls succeeding",
  H+" "+PG,"memset on small free; fixed remap to PROT_NONE, unmap, or purge for large")
p("C10","Writes to freed memory are detected before reuse",
  "With the write-after-free check enabled, any non-zero write to a freed small block that is still there when its slot is handed out again stops the process; the corrupted slot is never returned to the program.",
  "histories inputs","every position in the freed block, every later history of allocations, frees, trims and slab recycling that leads to reuse",
  "tests write at one place and reuse the slot in the simplest way",
  H,"zero check of the slot before it is handed out, on every reuse path")
p("C11","Overflows past a small block are detected",
  "With slab canaries enabled, every overwrite of the bytes just past a small block's usable size that changes them stops the process at the latest when the block is freed, moved or its usable size is queried. The guarding value starts with a zero byte, is unpredictable, differs between slabs and is renewed when a slab's memory is recycled.",
  "histories inputs configurations","every size class, overwritten byte and history between allocation and the detecting call; every slab in every run",
  "tests overflow one block of one size and free it at once; nothing tests renewal or distinctness",
  H,"canary set at allocation, checked at free/realloc/usable size; per-slab random value renewed for recycled slabs")
p("C12","Freed blocks are withheld for the configured delay",
  "With quarantines configured, a freed small block's address is not handed out again until at least the configured number of other frees of its size class have happened, and a freed large block's address range stays reserved and inaccessible until at least the configured number of other large frees. Slabs returned to the system are taken back into use in the order of their release, apart from the configured number held back at random.",
  "histories schedules configurations","every history and interleaving of frees and allocations; every quarantine length",
  "tests only show that one immediate reuse does not happen",
  H,"random array followed by FIFO queue for slots and for regions")
p("C13","Guard regions surround memory at all times",
  "Every live large allocation has inaccessible reserved pages directly before and after it for its whole life, including after being aligned, shrunk or moved, with randomised sizes; small-allocation slabs are separated by inaccessible guard slabs at the configured interval; size-zero blocks are never accessible.",
  "histories fault_sequences configurations schedules","every live block at every moment of every history, including shrink and move paths with failing calls",
  "tests overflow one fresh large block; guards after shrink, move and recycling are never looked at",
  H+" "+PG,"guard pages around large mappings, guard slab interval, re-guarding on shrink")
p("C14","Address space segregation by purpose, class and arena",
  "Memory used for one small size class in one arena is never used for another class, another arena, large blocks or allocator state, for the lifetime of the process; each thread keeps one arena for life and threads are spread evenly over arenas.",
  "histories schedules configurations","every history and interleaving of thread starts; all size classes and arenas",
  "no test looks at addresses of more than one class or thread",
  H,"statically reserved class regions; thread arena assignment by atomic counter")
p("C15","Only the allocator's own mappings are touched",
  "The allocator never unmaps, remaps, reprotects, purges or writes address space it does not currently own: mappings made by others, including ones placed into a range it has just released, keep their contents and protection even when its system calls fail part-way.",
  "fault_sequences schedules histories","every placement of foreign mappings by the kernel, every failing call, every interleaving",
  "tests never have foreign mappings appear next to or in just-released ranges, nor failing calls",
  PG+" "+H+" "+M,"ownership discipline of guard, lead/trail trimming, quarantine unmapping and mremap")
p("C16","Bounded footprint and no leaked address space",
  "Everything the allocator reserves is accounted for by live blocks, configured quarantines and caches: failed or undone operations leave nothing mapped, blocks leaving quarantine are completely unmapped, cached empty slabs stay within their limit, and new slabs are taken only when no existing slot of the class could serve. Unbounded churn with bounded live data therefore uses bounded address space.",
  "histories fault_sequences schedules configurations","every history with bounded live data; every failing system call",
  "tests end after a few operations and never measure mappings",
  H+" "+PG,"rollback on failure, quarantine eviction unmapping, empty/free slab lists, region table deletion")
p("C17","Thread safety: no race, deadlock or stall",
  "Concurrent use by any number of threads never races on allocator state, never deadlocks, and every call finishes within a bounded number of its own steps once it is scheduled, including trims, statistics, forks and signal-free system-call failures happening at the same time.",
  "schedules fault_sequences","every interleaving at the granularity of single memory accesses and lock operations",
  "tests are single-threaded",
  H+" mutex.h","per-class and region locks, lock order, acquire/release publication of initialised state")
p("C18","Forked children inherit a working, consistent heap",
  "A fork at any moment of a multi-threaded program gives a child in which every block live in the parent is intact and can be used, resized and freed, in which allocation works at once without deadlock, and whose actions do not disturb the parent.",
  "schedules crash_points","every point at which another thread can be inside the allocator when fork happens",
  "tests never fork",
  H,"atfork handlers: take all locks, reinitialise in child")
p("C19","Forked children diverge in randomness",
  "After a fork, parent, child and sibling children draw independent random values: for every size class, arena and for large blocks their subsequent placement, guard sizes and guarding values do not follow the same sequence.",
  "schedules histories","every generator state at the moment of fork, every class and arena",
  "tests never fork", H+" "+R,"reseeding every generator in the child handler")
p("C20","Entropy acquisition is robust",
  "Random seeds are assembled completely whatever the kernel does: interrupted calls are retried, short results are completed, and any other failure stops the process, so that no seed byte is ever left unfilled or predictable and every byte delivered influences later layout.",
  "fault_sequences","every sequence of interrupted, short and failed entropy reads at start-up, reseed and fork",
  "tests never make the entropy call misbehave", R,"retry loop of the seeding function; full key and IV used")
p("C21","Generators are reseeded regularly",
  "Each generator takes fresh kernel entropy after a bounded amount of output (256 KiB), so that knowledge of all earlier state stops predicting its choices after a bounded number of operations.",
  "histories","arbitrarily long histories per size class and for large blocks",
  "tests never run long enough to reach a reseed", R,"output counter checked when the cache is refilled")
p("C22","Layout choices are driven by entropy",
  "Two runs given different entropy differ in region bases, slot choices, guard sizes and quarantine order, each choice covers its whole range over many runs, and size classes and arenas are placed independently of each other.",
  "configurations histories","all entropy streams; statistical over many simulated processes",
  "tests never compare runs", H+" "+R,"random gaps, random slot start, random guards, random quarantine index")
p("C23","Statistics are exact",
  "With statistics enabled, the reported mapped, allocated, per-class and large totals and operation counts equal what the program's history implies, at every quiescent moment, also after failed operations, reallocation on every path, aligned allocation, trims and forks, through every reporting interface including the Android per-arena and per-class ones.",
  "histories fault_sequences schedules","every history, failing call and interleaving",
  "tests check that totals move in the right direction for a few calls",
  H,"counter updates on each allocation, deallocation and slab transition")
p("C24","Trimming releases every cached slab and nothing else",
  "A trim returns all memory of completely free small-allocation slabs to the system, reports whether it released any, discards the contents of withheld extended-size blocks, and affects no live block, no detection guarantee and no later allocation, even if the kernel refuses some of its requests.",
  "histories fault_sequences schedules","every history before the trim, every failing call during it, concurrent calls",
  "no test calls trim", H,"malloc_trim loop over empty slab lists with ENOMEM early exit")
p("C25","Object-size queries are sound",
  "For any pointer to or into a live small block the object-size query returns exactly the bytes remaining to the end of its usable range; for other pointers it never reports less than what is available; both query forms never disturb state and may run at any time from any thread.",
  "inputs histories schedules","every offset in every live block of every class including size zero, amid concurrent operations and before initialisation",
  "tests query two offsets in one fresh block",
  H,"slot arithmetic under the class lock; class lookup for the lock-free variant")
p("C26","free preserves errno",
  "free never changes errno, whichever internal path it takes and whichever system calls fail inside it.",
  "fault_sequences histories","every failing, interrupted or short system call inside free in any history",
  "tests never make a call inside free fail", H+" "+R,"saved errno around fallible calls")
p("C27","Sized deallocation is checked exactly",
  "Sized deallocation with the size (and, in C++, alignment) used for the allocation always succeeds, for memory from malloc, calloc, realloc and every form of operator new, and with a size of another size class always stops the process without releasing the block.",
  "inputs histories configurations","every size and alignment, through C and C++ entry points, in every history",
  "tests try one mismatch and no aligned type", H+" "+N,"expected-size comparison for small and large blocks")
p("C28","C++ allocation failure semantics",
  "When memory is refused, operator new calls the installed new-handler and retries until it succeeds, the handler gives up or none is installed, then throws bad_alloc, or returns null for nothrow forms; it never returns null from a throwing form, never leaks, and handlers may themselves use the allocator.",
  "fault_sequences histories","every sequence of refusals and handler behaviours, all operator forms",
  "tests never exhaust memory in operator new", N,"retry loop around the new-handler")
p("C29","Allocator state is isolated from program memory",
  "Allocator state lives in its own reserved area bounded by inaccessible guards, none of it is stored in or next to program memory (freed blocks never contain allocator pointers), and the process-wide roots are read-only once initialisation has finished.",
  "histories fault_sequences configurations","every history and configuration",
  "tests never inspect mappings", H,"out-of-line metadata reservation, read-only root page")
p("C30","Sealed metadata is never left or used unsealed",
  "With metadata sealing enabled, allocator state is accessible only while a thread is executing inside an allocator call: each call returns with access revoked on every path, every access happens with access granted, and all allocator state pages carry the protection key.",
  "schedules fault_sequences histories","every API call and every success or failure path, including re-entrant calls and fork handlers",
  "sealing is off in the tested builds", H+" "+M,"unseal/seal around each entry point; pkey_mprotect for metadata")
p("C31","Fatal errors always terminate with a report",
  "Once a fatal condition is found the process always terminates abnormally and never resumes, whatever happens to the diagnostic output; the complete diagnostic line is emitted despite interrupted and short writes.",
  "fault_sequences","every sequence of interrupted, short and failing writes during the report",
  "tests only see reports with a well-behaved stderr", U,"write loop followed by abort")
p("C32","Initialisation happens exactly once and completely",
  "However many threads make their first call at once, and even if setting up re-enters the allocator, initialisation happens exactly once and no call sees partial state; if any required step fails the process stops. Queries and frees of NULL before initialisation are harmless and other pointers are rejected.",
  "schedules fault_sequences","every interleaving of first calls; every failing step",
  "tests initialise in one thread before main", H,"double-checked initialisation with release publication; fatal on failure")
p("C33","Memory tagging separates neighbours and generations",
  "With memory tagging enabled, every small block is returned with a tag different from the current or most recent tags of its neighbours and from its own previous tag, its memory carries that tag, freed memory carries the reserved tag, tagged memory stays tagged after slab recycling, and all entry points accept tagged pointers. Once the program turns tagging off at run time (Android), new blocks are untagged, are never refused or mistaken, blocks from before stay usable and freeable, and the guard-value and write-after-free checks take over.",
  "histories schedules","every allocation history and slab recycling",
  "needs tagging hardware (or a simulated tag unit); only device tests exist", H+" memtag.h","random tag with exclusion mask, reserved tag on free, tagged slab mappings")
p("C34","Keystream is ChaCha8",
  "The random generator's output for a given key, nonce and position equals the ChaCha8 reference keystream, including across counter carry.",
  "inputs","all keys, nonces and positions","no known-answer test exists", C+" "+R,"chacha block function")
p("C35","Bounded draws are unbiased",
  "A uniform draw below a bound returns each value with exactly equal probability over the underlying random words, for every bound that configurations use.",
  "inputs","all bounds and random words","no test samples draws", R,"multiply-shift with rejection")
p("C36","Correct programs are never stopped",
  "A program that uses the API correctly is never stopped by the allocator: none of the checks for corruption, invalid pointers or size mismatch fires without cause, for any mix of entry points, sizes, alignments, threads, trims and forks, and with any memory refusals by the kernel.",
  "histories schedules fault_sequences inputs configurations","every correct history, interleaving and refusal sequence in every configuration",
  "tests run short single-threaded histories of the simplest calls",
  H+" "+U+" "+N,"every check that leads to a fatal error")
p("C37","Disabling the allocator freezes it",
  "On Android, from the return of malloc_disable until malloc_enable no other thread changes any allocator state and every allocator call of another thread waits without failing; the disabling thread can read a consistent state, afterwards every waiting call proceeds and completes correctly, and the pair works as the first call into the allocator, repeatedly, and amid any other activity.",
  "schedules histories fault_sequences","every interleaving of disable/enable pairs with calls of other threads, from any state including before initialisation",
  "the Android interface is not built by the tests", H,"h_malloc_disable takes every lock in a fixed order, h_malloc_enable releases them")
p("C38","Only the documented system calls are made",
  "The allocator asks the kernel only for what its documentation lists: private anonymous mappings created without access rights, protections set to read or read-write and never executable, purges with MADV_DONTNEED, in-place or fixed moves, plain getrandom; regular mprotect never with sealed metadata, protection keys only with it, names only in labelling builds, and nothing is written anywhere except before a fatal stop. A filter built from that list therefore never stops a program, on any path.",
  "histories fault_sequences configurations","every call in every history, including fallback paths taken only when the kernel refuses, in every configuration",
  "tests do not watch system calls, and fallback paths never run in them", M+" "+PG+" "+R+" "+U,"thin wrappers around the system calls")
p("C39","Calls wait only for calls that use the same pool",
  "A small allocation, free, query or resize waits only for threads working on the same size class of the same arena, and one of a large block only for threads working on large blocks: a thread that stalls anywhere inside a call delays nobody else, apart from first-time setup and whole-allocator calls (trim, statistics, fork, disable).",
  "schedules histories","every interleaving, with threads stalled at any point inside any call",
  "tests are single-threaded", H,"one lock per size class and arena, one for large blocks, never held together outside whole-allocator calls")
p("C40","The work of a call does not depend on the heap's history",
  "Outside first-time setup, whole-allocator calls and the doubling of the table of large blocks, an allocation, free, query or resize does work bounded by the size of the block it is about, however many blocks are live, freed, cached or quarantined: a small allocation or free makes at most two kernel requests about memory, a size query none, one about a large block a small fixed number.",
  "histories schedules fault_sequences","every call in every history, including heaps of thousands of blocks in any mixture of states, and refused memory",
  "tests do not measure work, and their heaps are small", H,"constant-time lists of slabs, ring buffers for quarantines, hash table kept at most three quarters full")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
