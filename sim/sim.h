// Deterministic simulator for hardened_malloc: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t; using i32 = int32_t;

// ---------------------------------------------------------------- build configuration of the code under test
struct Cfg {
    const char *name;
    bool zero_on_free, waf, slot_rand, canary;
    u64 q_rand, q_queue;
    bool ext, large_cls;
    u64 guard_iv, guard_div, rq_rand, rq_queue, rq_skip, fsq, class_region, n_arena;
    bool stats, self_init, seal, mte, android, label;
};
extern const Cfg CFG;
static const u64 PG = 4096;
static inline u64 pg_up(u64 x) { return (x + PG - 1) & ~(PG - 1); }
static inline u64 pg_dn(u64 x) { return x & ~(PG - 1); }
static inline u64 untag(u64 a) { return a & 0x00ffffffffffffffull; }

// ---------------------------------------------------------------- PRNG
static inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static inline u64 hash3(u64 a, u64 b, u64 c) { return mix64(mix64(mix64(a) ^ b) + c * 0x9e3779b97f4a7c15ull); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0xabcdef)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- violation classes
#define VCLASSES(X) \
    X(NONE,0) X(OVERLAP,1) X(CORRUPT,1) X(LIVE_REMAP,1) \
    X(SIZE,2) X(ALIGN,2) X(ACCESS,2) X(USABLE,2) X(BADERR,2) X(ZEROPTR,2) \
    X(REALLOC_CONTENT,3) X(REALLOC_FAIL,3) \
    X(SPURIOUS_OOM,4) X(OOM_ERRNO,4) X(MEMPTR,4) X(NO_RECOVERY,4) X(FREE_FAIL,4) \
    X(KERR,5) X(MISUSE,6) X(RACE_FREE,7) X(CALLOC_NONZERO,8) X(NONZERO,8) X(SCRUB,9) X(STALE_ACCESS,9) \
    X(WAF,10) X(CANARY_MISS,11) X(CANARY_VALUE,11) X(QUAR_SMALL,12) X(QUAR_LARGE,12) X(GUARD,13) X(GUARD_SLAB,13) X(ZERO_ACCESS,13) \
    X(SEGREGATION,14) X(ARENA,14) X(FOREIGN,15) X(LEAK,16) X(SLAB_BOUND,16) X(EMPTY_LIMIT,16) X(QUAR_BOUND,16) X(PARTIAL_UNMAP,16) \
    X(DATA_RACE,17) X(DEADLOCK,-1) X(HANG,-1) X(MUTEX,17) X(FORK,18) X(FORK_RNG,19) X(ENTROPY,20) X(RESEED,21) X(RANDOM,22) \
    X(STATS,23) X(TRIM,24) X(OBJSIZE,25) X(ERRNO,26) X(SIZED_MISS,27) X(CXX,28) X(ISOLATION,29) X(SEAL,30) X(REPORT,31) X(INIT,32) \
    X(TAG,33) X(KEYSTREAM,34) X(UNIFORM,35) X(FREEZE,37) X(SYSCALL,38) X(WAIT,39) X(WORK,40) X(SPURIOUS_FATAL,-36) X(CRASH,-1) X(HARNESS,-99)
enum VClass {
#define X(n, p) V_##n,
    VCLASSES(X)
#undef X
    V_COUNT
};
extern const char *const vclass_name[];
extern const int vclass_prop[];   // property number, negative: counts for every property

// ---------------------------------------------------------------- fault kinds
#define FKINDS(X) \
    X(MMAP_ENOMEM) X(MFIXED_ENOMEM) X(MPROTECT_ENOMEM) X(MUNMAP_ENOMEM) X(MREMAP_ENOMEM) X(MADVISE_ENOMEM) \
    X(KERR) X(GR_EINTR) X(GR_SHORT) X(GR_FAIL) X(WR_EINTR) X(WR_SHORT) X(WR_FAIL) X(PKEY_ALLOC) X(ATFORK) X(PRCTL) X(PAGESIZE) X(MUTEXINIT) \
    X(VMA_LIMIT) X(COMMIT_LIMIT) X(NATURAL)
enum FKind {
#define X(n) F_##n,
    FKINDS(X)
#undef X
    F_COUNT
};
extern const char *const fkind_name[];

// ---------------------------------------------------------------- operations
#define OPKINDS(X) \
    X(MALLOC) X(CALLOC) X(REALLOC) X(FREE) X(FREE_SIZED) X(CFREE) X(ALIGNED) X(POSIX_MEMALIGN) X(MEMALIGN) X(VALLOC) X(PVALLOC) \
    X(USABLE) X(OBJSIZE) X(OBJSIZE_FAST) X(TRIM) X(MALLINFO) X(MALLOC_INFO) X(NEW) X(DELETE) X(REALLOC_NULL) X(NULLOPS) X(VERIFY) \
    X(CHURN) X(BADCALL) X(PROBE) X(FORK) X(RACE_FREE) X(TRACE) X(BURST) X(MISC) X(RNG) X(DISABLE) X(NOTAG) X(SWEEP) X(NOP)
enum OpKind {
#define X(n) OP_##n,
    OPKINDS(X)
#undef X
    OP_COUNT
};
extern const char *const opkind_name[];

struct Op { i32 id; u8 tid; u8 phase; u8 kind; i32 h; u64 a, b, c; };

// misuse probes
#define PROBES(X) \
    X(STALE) X(INTERIOR) X(MISALIGNED) X(NEIGHBOR) X(GUARD_PTR) X(UNUSED_SLOT) X(UNUSED_SLAB) X(FOREIGN_PTR) X(WILD) X(META_PTR) \
    X(ZERO_STALE) X(SIZED_MISMATCH) X(OVERFLOW) X(WAF) X(STALE_QUERY) X(GAP_PTR) X(SIZED_MATCH_ALL)
enum ProbeKind {
#define X(n) PR_##n,
    PROBES(X)
#undef X
    PR_COUNT
};
extern const char *const probe_name[];

struct FaultRec { i32 op; i32 idx; i32 kind; u64 val; };
struct SwitchRec { i32 op; u64 pts; i32 to; };
struct Spec {
    std::map<std::string, i64> p;
    std::vector<Op> ops;
    bool is_explicit = false;
    std::vector<FaultRec> faults;
    std::vector<SwitchRec> switches;
    i64 get(const char *k, i64 d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
};

// ---------------------------------------------------------------- counters (shared memory)
#define CNT(X) \
    X(api_calls) X(allocs) X(frees) X(reallocs) X(steps) X(switches) X(preempts) X(blocks) X(syscalls) X(mutex_ops) X(atomics) \
    X(alloc_null) X(slab_new) X(slab_recycled) X(slab_purged) X(slot_reused) X(large_alloc) X(large_retired) X(large_evicted) X(shrink_inplace) \
    X(mremap_moves) X(mremap_fallback) X(foreign_placed) X(forks) X(fork_children) X(probes) X(probe_fatal) X(probe_segv) X(probe_inconclusive) \
    X(terminal_fatal) X(trims) X(trim_released) X(trim_faulted) X(stats_checks) X(reseed_reads) X(entropy_bytes) X(verify_bytes) X(quiescent_checks) \
    X(waf_armed) X(waf_caught) X(waf_erased) X(new_handler_calls) X(bad_alloc) X(race_free_runs) X(race_checked_accesses) X(pair_runs) X(canary_checks) \
    X(table_growth) X(init_races) X(reentrant_calls) X(zero_checks) X(quar_checks) X(guard_checks) X(other_class_violations) X(churn_iters) X(tag_checks) X(seal_checks) \
    X(rollback_after_map) X(recovery_ops) X(racefree_second_fatal) X(racefree_segv) X(keystream_checks) X(keystream_far) X(rng_seedings) X(uniform_checks) X(extreme_draws) X(freezes) X(freeze_writes) X(tag_disables) X(untagged_blocks) X(sysrule_checks) X(pool_calls) X(pool_waits) X(slab_order_checks) X(work_checks)
enum Cnt {
#define X(n) C_##n,
    CNT(X)
#undef X
    C_COUNT
};
extern const char *const cnt_name[];

static const int MAXF = 12;      // fibers (0 = coordinator)
static const int TRACE_MAX = 8192;

struct Result {
    volatile int status;      // 0 unfinished, 1 ok, 2 violation, 3 harness error
    int cls, opid, tid;
    int terminal;             // run ended early with an expected stop
    u64 hash, sched_hash;
    char msg[600];
    u64 cnt[C_COUNT];
    u64 fault_cnt[F_COUNT];
    u64 op_cnt[OP_COUNT];
    u64 probe_cnt[PR_COUNT];
    u64 vother[V_COUNT];
    u32 ntrace;
    u64 trace[TRACE_MAX];
    u64 entropy_used;
};
struct Outcome { volatile int kind; char msg[200]; };   // probe result: 1 fatal 2 segv 3 returned 4 hang/deadlock 5 inconclusive 6 detected violation
extern Result *R, *RC[3]; // current result block, results of forked children
extern Outcome *OUT; extern bool g_probe; extern int g_probe_watch;
extern Spec S;                // current run
static inline void count(Cnt c, u64 n = 1) { R->cnt[c] += n; }

// ---------------------------------------------------------------- fibers and scheduler
struct VC { u32 c[MAXF]; };
struct Blk;
struct Fiber {
    int id; void *sp; u8 *stack_lo; size_t stack_sz;
    int state;                // 0 unused 1 runnable 2 blocked 3 parked 4 done
    int cur_op; u64 op_pts; u64 call_pts; u64 stop;
    int sysidx;
    int err;                  // saved errno
    u64 cxa[2];
    u8 tls[256];
    bool in_sut; int nopreempt;
    u32 pkru;                 // bit i: access to key i disabled
    bool expect_fatal, allow_fatal, accept_segv, kerr_injected; int expect_cls; bool force_enomem;
    int faults_call;          // memory faults injected during the current API call
    int faults_map;           // of those, failures of munmap
    int faults_adv;           // of those, failures of madvise
    int cur_kind;             // 1 alloc, 2 free, 3 realloc, 0 other
    u64 blocked_on;
    VC vc;
    // new-handler behaviour for the current call
    int nh_mode, nh_calls, nh_k; bool relief;
    std::vector<u64> *regions_created;
    std::string fout, fwant; const char *wr_next; size_t wr_left;   // diagnostics printed by this thread, and meant to be printed
    int tag_inv, tag_last; bool may_hold, sigabrt_default;  // tag state when the current and the last call began; locks may be held at return
    u32 pool[2]; int pool_n, pool_next;   // what the current call concerns: size class and arena, or large blocks; none: the whole allocator
    u64 nested_pts; int mem_requests; bool grew;           // current call: steps of calls nested in it, kernel requests about memory, growth of the table of large blocks
    int depth; int probe_ignore; u64 large_peak;          // most large blocks that existed at once during the current call
    Blk *transit;             // block handed to free/realloc, not in the live map while the call runs
};
extern Fiber F[MAXF];
extern Fiber *cur;            // running fiber
extern int nfib;

static const u32 POOL_LARGE = ~0u;
struct Hot { u64 pts; u64 stop; u32 mask; u32 pad; };
extern Hot G;                 // pts of current fiber's op, next stop
enum { M_RACE = 1, M_SEAL = 2, M_FREEZE = 4 };
extern bool g_at_random;
extern int g_frozen;              // thread between malloc_disable and malloc_enable, or -1
extern int g_tagstate;            // tagging disabled at run time: 0 no, 1 the call is under way, 2 yes

void sched_init();
void fiber_create(int id, void (*fn)(int));
void sched_park_until_released();        // worker: wait for the coordinator
void sched_wait_all_parked();            // coordinator
void sched_release_workers();
void sched_op_begin(int opid);
void sched_run();                         // main context -> coordinator
void sched_keep_only_current();           // in a forked child: other threads do not exist
void yield_blocked(u64 on);
void maybe_switch_sync();
extern bool g_sched_off;                  // no voluntary switches
bool any_other_in_sut_alloc(); bool mutexes_all_free(); int mutex_held_by(int id);
void vc_barrier(); void handoff_rel(u64), handoff_acq(u64), handoff_drop(u64); static const u64 ATFORK_KEY = 1ull << 60;

[[noreturn]] void run_exit(int status);
void violation(VClass c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool class_active(VClass c);
[[noreturn]] void handle_fatal_stop(const char *why);
void ev(u64 a, u64 b = 0, u64 c = 0, u64 d = 0);
extern bool g_verbose;
void vlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// recording
extern std::vector<FaultRec> g_rec_faults;
extern std::vector<SwitchRec> g_rec_switches;
extern bool g_record;
bool fault_decide(FKind k, u64 rate_permyriad, u64 *val = nullptr);
extern bool g_faults_on;

// ---------------------------------------------------------------- simulated kernel
enum { OWN_SUT = 1, OWN_FOREIGN = 2, OWN_GLOBAL = 3 };
struct Vma { u64 lo, hi; int prot; int pkey; int owner; int region; bool mte; };
struct Region { int id; u64 lo, hi; u64 bytes; int state; u64 map_seq; int op; int fiber; Blk *blk; };
enum { RG_FRESH = 0, RG_LIVE = 1, RG_RETIRED = 2, RG_META = 3, RG_SLAB = 4, RG_GONE = 5 };
extern std::map<u64, Vma> vmas;
extern std::vector<Region> regions;
static const u64 ARENA_LO = 0x100000000000ull, ARENA_HI = 0x500000000000ull;
void kernel_init();
Vma *vma_at(u64 a);
bool range_all(u64 lo, u64 hi, int owner, int prot_mask, int prot_val);
bool range_unowned_by_sut(u64 lo, u64 hi);
void reent_use(); extern bool g_in_child; extern int g_child_busy; extern int g_run_kind;
int range_prot_any(u64 lo, u64 hi);       // OR of prots of SUT-owned vmas in the range
void kernel_final_check();
bool is_sut_global(u64 a);
extern u64 slab_lo, slab_hi;
extern bool g_inited;                     // atfork handlers registered
extern u64 g_seq, g_seed; extern int g_init_fiber, g_slab_reservations; extern bool g_init_done; extern u64 g_init_entropy;
bool init_in_progress();
extern u64 g_entropy_pos, g_entropy_seed, g_entropy_flip; 
extern void (*atfork_prepare)(); extern void (*atfork_parent)(); extern void (*atfork_child)();
extern int g_atfork_calls;
extern bool g_misuse_running;             // the program has misused the API: ownership rules are off
extern std::string g_fatal_out, g_rec_path; extern bool g_wr_failed;
void fork_child_entropy(u64 salt);
extern u64 foreign_count;
u64 pick_foreign(Rng &r);
extern u8 *mte_tag_at(u64 a);

void rng_note_entropy(const void *p, size_t n);
// oracle callbacks from the kernel
void on_unmap(u64 lo, u64 hi);
void on_fixed(u64 lo, u64 hi);
void on_fixed_refused(u64 lo, u64 hi);
void on_protect(u64 lo, u64 hi, int prot); void on_protect_done(u64 lo, u64 hi);
void on_purge(u64 lo, u64 hi);
void on_move(u64 olo, u64 ohi, u64 nlo, u64 nhi);

// ---------------------------------------------------------------- oracle
struct Blk {
    u64 p, addr; u64 req, usable, align; u64 tag; int serial;
    bool small; int cls, arena; int region; u64 glo, ghi; bool zero_size; int tid; bool isnew; bool aligned_api; u8 mtag;
    u64 canary; int tmode; bool shrunk; int newv; bool nofill, was_purged;
};
extern u32 size_class_of(u64 sz);          // class index for an internal size (with canary)
extern std::vector<u32> CLS_SIZE; extern std::vector<u32> CLS_SLOTS;
extern u64 MAX_SLAB;
static inline u64 canary_sz() { return CFG.canary ? 8 : 0; }
u64 adj(u64 sz);
void oracle_init();
void oracle_post_init();
void quiescent(bool final_phase);
void run_spec_child();                      // executes S in this process, fills R, exits
int cls_of_addr(u64 a, int *arena);

// ---------------------------------------------------------------- code under test
extern "C" {
void *h_malloc(size_t); void *h_calloc(size_t, size_t); void *h_realloc(void *, size_t); void *h_aligned_alloc(size_t, size_t);
void h_free(void *); int h_posix_memalign(void **, size_t, size_t); size_t h_malloc_usable_size(void *); int h_mallopt(int, int);
int h_malloc_trim(size_t); void h_malloc_stats(void); int h_malloc_info(int, FILE *); void *h_memalign(size_t, size_t); void *h_valloc(size_t);
void *h_pvalloc(size_t); void h_cfree(void *); void *h_malloc_get_state(void); int h_malloc_set_state(void *);
#define ABSENT __attribute__((weak)) // not part of every build
extern void *h_valloc(size_t) ABSENT; extern void *h_pvalloc(size_t) ABSENT; extern void h_cfree(void *) ABSENT; extern void *h_malloc_get_state(void) ABSENT; extern int h_malloc_set_state(void *) ABSENT; extern int h_malloc_info(int, FILE *) ABSENT;
size_t h_malloc_object_size(const void *); size_t h_malloc_object_size_fast(const void *); void h_free_sized(void *, size_t);
}
