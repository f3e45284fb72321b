// Fibers, scheduler, simulated mutexes, compiler-inserted access hooks, race detection.
#include "sim.h"
#include <sys/mman.h>
#include <link.h>
#include <cxxabi.h>
#include <pthread.h>
#include <unistd.h>
#include <csignal>
#include <cstdarg>

Fiber F[MAXF]; Fiber *cur; int nfib; Hot G;
bool g_sched_off, g_record, g_verbose;
std::vector<FaultRec> g_rec_faults; std::vector<SwitchRec> g_rec_switches;
static void *main_sp; static void (*fib_fn[MAXF])(int);
static u8 *tls_base; static size_t tls_size; static u8 tls_init[256];
static Rng sch_rng; static int pol; static u64 pol_mean, pol_sync, pol_few; static u64 sw_cap;
static u64 hang_limit;
static std::unordered_map<int, std::vector<SwitchRec>> ex_sw; static std::unordered_map<int, size_t> ex_pos;
static int op_mode[MAXF];

extern "C" void sim_swap(void **save, void *to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl sim_tramp
sim_tramp:
  movq %r12,%rdi
  xorl %ebp,%ebp
  call sim_fiber_entry
  ud2
)");
extern "C" void sim_tramp();

void vlog(const char *fmt, ...) {
    if (!g_verbose) return;
    int sav = errno; va_list a; va_start(a, fmt);
    char b[900]; int n = snprintf(b, sizeof b, "[f%d op%d pt%lu] ", cur ? cur->id : -1, cur ? cur->cur_op : -1, (unsigned long)G.pts);
    n += vsnprintf(b + n, sizeof b - n - 1, fmt, a); va_end(a);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n'; (void)!::write(2, b, n); errno = sav;
}
void ev(u64 a, u64 b, u64 c, u64 d) {
    u64 h = R->hash; h = mix64(h ^ a) + b * 0x9e3779b97f4a7c15ull; h = mix64(h ^ c) + d; h ^= (u64)(cur ? cur->id : 77) << 56; R->hash = mix64(h);
}

static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1, ms = i->dlpi_phdr[k].p_memsz;
        u64 fs; asm("mov %%fs:0,%0" : "=r"(fs));
        tls_base = (u8 *)(fs - ((ms + al - 1) & ~(al - 1))); tls_size = ms;
    }
    return 1; // main executable comes first
}

void sched_init() {
    for (int i = 0; i < MAXF; i++) { F[i] = Fiber(); F[i].id = i; }
    nfib = 0; cur = nullptr; g_sched_off = false;
    dl_iterate_phdr(phdr_cb, nullptr);
    if (tls_size > 256) { fprintf(stderr, "TLS too large\n"); _exit(9); }
    memcpy(tls_init, tls_base, tls_size);
    sch_rng = Rng(hash3(S.get("seed"), 0x5c4ed, 1));
    pol = S.get("pol", 0); pol_mean = S.get("mean", 100); pol_sync = S.get("syncp", 20); pol_few = S.get("fewp", 30);
    sw_cap = S.get("swcap", 60000); hang_limit = S.get("hang", 30000000);
    ex_sw.clear(); ex_pos.clear();
    if (S.is_explicit) {
        for (auto &s : S.switches) ex_sw[s.op].push_back(s);
        for (auto &e : ex_sw) std::stable_sort(e.second.begin(), e.second.end(), [](const SwitchRec &a, const SwitchRec &b) { return a.pts < b.pts; });
    }
    G = Hot(); G.stop = ~0ull;
}
void fiber_create(int id, void (*fn)(int)) {
    Fiber &f = F[id];
    if (!f.stack_lo) {
        f.stack_sz = 256 * 1024;
        u64 at = 0x600000000000ull + (u64)id * 0x100000;
        void *m = ::mmap((void *)at, f.stack_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { perror("stack"); _exit(9); }
        f.stack_lo = (u8 *)m;
    }
    u64 *sp = (u64 *)(f.stack_lo + f.stack_sz); sp -= 2;
    *--sp = (u64)&sim_tramp;
    *--sp = 0; *--sp = 0; *--sp = (u64)id; *--sp = 0; *--sp = 0; *--sp = 0; // rbp rbx r12 r13 r14 r15
    f.sp = sp; f.state = 1; fib_fn[id] = fn; memcpy(f.tls, tls_init, tls_size); f.stop = ~0ull; f.cur_op = -1 - id;
    f.pkru = 0xffffffffu; f.vc.c[id] = 1;
    if (id >= nfib) nfib = id + 1;
}
static void swtch(Fiber *to) {
    Fiber *from = cur;
    if (from == to) return;
    auto *g = (u64 *)abi::__cxa_get_globals();
    if (from) { from->op_pts = G.pts; from->stop = G.stop; from->err = errno; from->cxa[0] = g[0]; from->cxa[1] = g[1]; memcpy(from->tls, tls_base, tls_size); }
    cur = to; G.pts = to->op_pts; G.stop = to->stop; g[0] = to->cxa[0]; g[1] = to->cxa[1]; memcpy(tls_base, to->tls, tls_size);
    R->sched_hash = mix64(R->sched_hash ^ ((u64)to->id << 48) ^ ((u64)(u32)to->cur_op << 24) ^ to->op_pts);
    count(C_switches);
    errno = to->err;
    sim_swap(from ? &from->sp : &main_sp, to->sp);
    errno = cur->err;
}
extern "C" void sim_fiber_entry(int id) {
    fib_fn[id](id);
    cur->state = 4;
    yield_blocked(0);
    abort();
}
void sched_run() { swtch(&F[0]); }

// -------- choosing
static void set_next_stop0() {
    if (S.is_explicit) {
        auto it = ex_sw.find(cur->cur_op);
        if (it == ex_sw.end()) { G.stop = ~0ull; return; }
        size_t &k = ex_pos[cur->cur_op];
        while (k < it->second.size() && it->second[k].pts < G.pts) k++;
        G.stop = k < it->second.size() ? it->second[k].pts : ~0ull;
        if (G.stop <= G.pts && G.stop != ~0ull) G.stop = G.pts; // due at once
        return;
    }
    if (g_sched_off || cur->nopreempt || R->cnt[C_switches] > sw_cap) { G.stop = ~0ull; return; }
    int m = op_mode[cur->id];
    if (m == 1) G.stop = G.pts + 1 + sch_rng.below(2 * pol_mean);
    else if (m == 3) { if (G.stop == ~0ull || G.stop <= G.pts) G.stop = sch_rng.chance(pol_few, 100) ? G.pts + 1 + sch_rng.below(sch_rng.chance(1, 2) ? 60 : 600) : ~0ull; }
    else G.stop = ~0ull;
}
static void set_next_stop() { set_next_stop0(); u64 cap = cur->call_pts + hang_limit + 1; if (G.stop > cap) G.stop = cap; }
static Fiber *pick_random() {
    int c[MAXF], n = 0;
    for (int i = 0; i < nfib; i++) if (&F[i] != cur && F[i].state == 1) c[n++] = i;
    return n ? &F[c[sch_rng.below(n)]] : nullptr;
}
static Fiber *ex_lookup() { // explicit mode: a recorded switch at exactly this point
    auto it = ex_sw.find(cur->cur_op);
    if (it == ex_sw.end()) return nullptr;
    size_t &k = ex_pos[cur->cur_op];
    while (k < it->second.size() && it->second[k].pts < G.pts) k++;
    if (k < it->second.size() && it->second[k].pts == G.pts) { int to = it->second[k].to; k++; if (to < nfib && F[to].state == 1 && &F[to] != cur) return &F[to]; }
    return nullptr;
}
static void rec_switch(Fiber *to) { if (g_record) g_rec_switches.push_back({cur->cur_op, G.pts, to->id}); }
static void do_switch(Fiber *to) {
    rec_switch(to); ev(0x51, to->id, cur->cur_op, G.pts);
    swtch(to);
    set_next_stop();
}
__attribute__((noinline)) static void slow_point() {
    if (G.pts - cur->call_pts > hang_limit) violation(V_HANG, "call did not finish within %lu of its own steps", (unsigned long)hang_limit);
    if (S.is_explicit) { Fiber *t = (g_sched_off || cur->nopreempt) ? nullptr : ex_lookup(); if (t) { count(C_preempts); do_switch(t); } else set_next_stop(); if (G.stop <= G.pts) G.stop = G.pts + 1; return; }
    if (g_sched_off || cur->nopreempt) { G.stop = ~0ull; }
    else { Fiber *t = pick_random(); if (t) { count(C_preempts); G.stop = ~0ull; do_switch(t); } else { G.stop = ~0ull; set_next_stop(); } }
    u64 cap = cur->call_pts + hang_limit + 1;
    if (G.stop > cap) G.stop = cap;
}
bool g_at_random; // policy 5: threads stall in requests for random data only
void maybe_switch_sync() {
    if (!cur) return;
    G.pts++;
    if (S.is_explicit) { if (G.pts >= G.stop) slow_point(); return; }
    if (g_sched_off || cur->nopreempt) { if (G.pts >= G.stop) slow_point(); return; }
    if (op_mode[cur->id] == 5) { bool at = g_at_random; g_at_random = false; if (at && sch_rng.chance(pol_sync, 100)) { Fiber *t = pick_random(); if (t) { count(C_preempts); do_switch(t); } } else if (G.pts >= G.stop) slow_point(); return; }
    if (op_mode[cur->id] == 2 && R->cnt[C_switches] <= sw_cap && sch_rng.chance(pol_sync, 100)) { Fiber *t = pick_random(); if (t) { count(C_preempts); do_switch(t); } return; }
    if (G.pts >= G.stop) slow_point();
}
void sched_op_begin(int opid) {
    R->cnt[C_steps] += G.pts;
    cur->cur_op = opid; G.pts = 0; cur->call_pts = 0; cur->sysidx = 0; G.stop = ~0ull;
    int p = pol;
    if (!S.is_explicit && p == 4) p = 1 + sch_rng.below(3);
    op_mode[cur->id] = p;
    // switch between operations
    if (S.is_explicit) { Fiber *t = ex_lookup(); if (t) do_switch(t); }
    else if (!g_sched_off && !cur->nopreempt && cur->id != 0 && sch_rng.chance(1, 2)) { Fiber *t = pick_random(); if (t) do_switch(t); }
    set_next_stop();
    u64 cap = hang_limit + 1; if (G.stop > cap) G.stop = cap;
}
void yield_blocked(u64 on) {
    Fiber *self = cur;
    G.pts++;
    if (self->state == 1) { self->state = 2; self->blocked_on = on; }
    count(C_blocks);
    Fiber *t = nullptr;
    if (S.is_explicit) { t = ex_lookup(); if (!t) for (int i = 0; i < nfib; i++) if (F[i].state == 1 && &F[i] != self) { t = &F[i]; break; } }
    else if (g_sched_off) { for (int i = 0; i < nfib; i++) if (F[i].state == 1 && &F[i] != self) { t = &F[i]; break; } }
    else t = pick_random();
    if (!t) {
        char b[300]; int n = 0;
        for (int i = 0; i < nfib; i++) n += snprintf(b + n, sizeof b - n, " f%d:%s(op%d)", i, F[i].state == 2 ? "blocked" : F[i].state == 3 ? "parked" : F[i].state == 4 ? "done" : "?", F[i].cur_op);
        violation(V_DEADLOCK, "no thread can run:%s", b);
        run_exit(3);
    }
    do_switch(t);
}
void sched_park_until_released() {
    cur->state = 3;
    bool all = true;
    for (int i = 1; i < nfib; i++) if (F[i].state != 3 && F[i].state != 4) all = false;
    if (all && F[0].state == 2) F[0].state = 1;
    static int parks; parks++;
    R->cnt[C_steps] += G.pts;
    cur->cur_op = -(1000 + 100 * parks + cur->id); G.pts = 0; cur->call_pts = 0; // a park point of its own
    yield_blocked(2);
}
void sched_wait_all_parked() {
    for (;;) {
        bool all = true;
        for (int i = 1; i < nfib; i++) if (F[i].state != 3 && F[i].state != 4) all = false;
        if (all) break;
        static int waits; waits++;
        R->cnt[C_steps] += G.pts;
        cur->cur_op = -(500000 + waits); G.pts = 0; cur->call_pts = 0; yield_blocked(1);
    }
    vc_barrier();
}
void sched_release_workers() { vc_barrier(); for (int i = 1; i < nfib; i++) if (F[i].state == 3) F[i].state = 1; }
void sched_keep_only_current() {
    for (int i = 0; i < nfib; i++) if (&F[i] != cur) F[i].state = 4;
    vc_barrier();
}
bool any_other_in_sut_alloc() { for (int i = 0; i < nfib; i++) if (&F[i] != cur && F[i].in_sut && F[i].state != 4 && F[i].cur_kind) return true; return false; }

// ---------------------------------------------------------------- vector clocks and race detection
static std::unordered_map<u64, VC> sync_vc;
struct Shadow { u32 wclk; u8 wtid, wmask; u32 rclk[MAXF]; u8 rmask[MAXF]; int wop; int rop[MAXF]; };
static std::unordered_map<u64, Shadow> shadow;
void vc_barrier() {
    VC m = {}; for (int i = 0; i < nfib; i++) for (int k = 0; k < MAXF; k++) m.c[k] = std::max(m.c[k], F[i].vc.c[k]);
    for (int i = 0; i < nfib; i++) { F[i].vc = m; F[i].vc.c[i]++; }
}
static void vc_acq(u64 a) { auto it = sync_vc.find(a); if (it != sync_vc.end()) for (int k = 0; k < MAXF; k++) cur->vc.c[k] = std::max(cur->vc.c[k], it->second.c[k]); }
static void vc_rel(u64 a) { VC &v = sync_vc[a]; for (int k = 0; k < MAXF; k++) v.c[k] = std::max(v.c[k], cur->vc.c[k]); cur->vc.c[cur->id]++; }
void handoff_rel(u64 serial) { vc_rel(serial << 1 | 1ull << 63); }
void handoff_acq(u64 serial) { vc_acq(serial << 1 | 1ull << 63); }
void handoff_drop(u64 serial) { sync_vc.erase(serial << 1 | 1ull << 63); }
static bool race_relevant(u64 a) {
    if (is_sut_global(a)) return true;
    if (a < ARENA_LO || a >= ARENA_HI) return false;
    if (a >= slab_lo && a < slab_hi) return false;
    Vma *v = vma_at(a);
    return v && v->region >= 0 && regions[v->region].state == RG_META;
}
static void race_check1(u64 g, u8 mask, bool w) {
    Shadow &s = shadow[g]; int me = cur->id; VC &c = cur->vc;
    if ((s.wmask & mask) && s.wtid != me && s.wclk > c.c[s.wtid])
        violation(V_DATA_RACE, "%s of allocator state at %#lx by thread %d (op %d) unordered with a write by thread %d (op %d)", w ? "write" : "read", (unsigned long)(g << 3), me, cur->cur_op, s.wtid, s.wop);
    if (w) {
        for (int k = 0; k < nfib; k++) if (k != me && (s.rmask[k] & mask) && s.rclk[k] > c.c[k])
            violation(V_DATA_RACE, "write of allocator state at %#lx by thread %d (op %d) unordered with a read by thread %d (op %d)", (unsigned long)(g << 3), me, cur->cur_op, k, s.rop[k]);
        if (s.wtid == me && s.wclk == c.c[me]) s.wmask |= mask; else s.wmask = mask;
        s.wtid = me; s.wclk = c.c[me]; s.wop = cur->cur_op;
        for (int k = 0; k < nfib; k++) if (k != me) s.rmask[k] &= ~mask;
    } else {
        if (s.rclk[me] == c.c[me]) s.rmask[me] |= mask; else s.rmask[me] = mask;
        s.rclk[me] = c.c[me]; s.rop[me] = cur->cur_op;
    }
}
static void race_check(u64 a, u64 n, bool w) {
    if (!race_relevant(a)) return;
    count(C_race_checked_accesses);
    u64 e = a + n;
    if (n > 4096) e = a + 4096;
    for (u64 g = a >> 3; g <= (e - 1) >> 3; g++) {
        u64 lo = std::max(a, g << 3), hi = std::min(e, (g + 1) << 3);
        u8 mask = (u8)(((1u << (hi - lo)) - 1) << (lo & 7));
        race_check1(g, mask, w);
    }
}
__attribute__((noinline)) static void checked_access(u64 a, u64 n, bool w) {
    if (!cur || !cur->in_sut) return;
    if (G.mask & M_SEAL) {
        if (a >= ARENA_LO && a < ARENA_HI && !(a >= slab_lo && a < slab_hi)) {
            Vma *v = vma_at(a);
            if (v && v->pkey > 0 && (cur->pkru >> v->pkey & 1)) violation(V_SEAL, "%s of sealed allocator state at %#lx", w ? "write" : "read", (unsigned long)a);
        }
    }
    if ((G.mask & M_FREEZE) && w && cur->id != g_frozen) {
        bool meta = is_sut_global(a); if (!meta && a >= ARENA_LO && a < ARENA_HI && !(a >= slab_lo && a < slab_hi)) { Vma *v = vma_at(a); meta = v && v->owner == OWN_SUT && v->region >= 0 && regions[v->region].state == RG_META; }
        if (meta) { count(C_freeze_writes); violation(V_FREEZE, "thread %d changes allocator state at %#lx while thread %d has the allocator disabled", cur->id, (unsigned long)a, g_frozen); }
    }
    if (G.mask & M_RACE) race_check(a, n, w);
}
int g_frozen = -1, g_tagstate;
void access_hook(u64 a, u64 n, bool w) { if (__builtin_expect(++G.pts >= G.stop, 0) && cur) slow_point(); if (G.mask) checked_access(untag(a), n, w); }
static inline void acc(void *a, u64 n, bool w) {
    if (__builtin_expect(++G.pts >= G.stop, 0)) { if (cur && cur->in_sut) slow_point(); }
    if (__builtin_expect(G.mask, 0)) checked_access((u64)a, n, w);
}
static void at_acq(void *a, int mo) { if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) vc_acq((u64)a); }
static void at_rel(void *a, int mo) { if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) vc_rel((u64)a); }
static void at_point(void *a, bool w, u64 n) {
    (void)w; (void)n; (void)a;
    if (!cur || !cur->in_sut) return;
    count(C_atomics); maybe_switch_sync();
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, false); } void __tsan_write##n(void *a) { acc(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { acc(a, n, false); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { acc(a, n, false); } void __tsan_volatile_write##n(void *a) { acc(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, true); } \
    void __tsan_read_write##n(void *a) { acc(a, n, false); acc(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) acc(a, n, false); }
void __tsan_write_range(void *a, size_t n) { if (n) acc(a, n, true); }
void __tsan_vptr_update(void **a, void *) { acc(a, 8, true); }
void __tsan_vptr_read(void **a) { acc(a, 8, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { at_point((void *)a, false, sizeof(T)); T v = *a; at_acq((void *)a, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_rel((void *)a, mo); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { at_point((void *)a, true, sizeof(T)); at_acq((void *)a, mo); at_rel((void *)a, mo); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { at_point((void *)a, true, sizeof(T)); T o = *a; if (o == *c) { at_acq((void *)a, mo); at_rel((void *)a, mo); *a = v; return 1; } at_acq((void *)a, fmo); *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
}

// ---------------------------------------------------------------- simulated mutexes
struct SimMutex { int owner; };
static std::unordered_map<u64, SimMutex> mutexes;
bool fault_decide(FKind k, u64 rate, u64 *val);
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
    maybe_switch_sync(); count(C_mutex_ops);
    mutexes[(u64)m] = {-1}; sync_vc.erase((u64)m); if (cur) vc_rel((u64)m);
    return 0;
}
}
static std::string pool_name(Fiber *f) {
    std::string t; char b[80];
    for (int i = 0; i < f->pool_n; i++) { u32 x = f->pool[i]; if (x == POOL_LARGE) snprintf(b, sizeof b, "large blocks"); else if (x % 64 == 63) snprintf(b, sizeof b, "size class %u", x / 64); else snprintf(b, sizeof b, "size class %u of arena %u", x / 64, x % 64); t += (i ? " and " : ""); t += b; }
    return t;
}
extern "C" {
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mutexes.erase((u64)m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!cur) return 0;
    if (G.mask) checked_access((u64)m, 4, false);
    volatile char touch = *(volatile char *)m; (void)touch; // the lock word must be accessible
    maybe_switch_sync(); count(C_mutex_ops);
    for (;;) {
        auto it = mutexes.find((u64)m);
        if (it == mutexes.end()) it = mutexes.emplace((u64)m, SimMutex{-1}).first;
        if (it->second.owner < 0) { it->second.owner = cur->id; break; }
        if (it->second.owner == cur->id) { violation(V_DEADLOCK, "thread %d locks a mutex it already holds", cur->id); run_exit(3); }
        Fiber *o = &F[it->second.owner];
        if (cur->pool_n && o->pool_n && o->in_sut && g_inited && !g_misuse_running) {
            bool common = false; count(C_pool_waits);
            for (int i = 0; i < cur->pool_n; i++) for (int j = 0; j < o->pool_n; j++) { u32 x = cur->pool[i], y = o->pool[j]; if (x == y || (x != POOL_LARGE && y != POOL_LARGE && x / 64 == y / 64 && (x % 64 == 63 || y % 64 == 63))) common = true; }
            if (!common) violation(V_WAIT, "thread %d (call concerning %s) waits for thread %d (call concerning %s)", cur->id, pool_name(cur).c_str(), o->id, pool_name(o).c_str());
        }
        yield_blocked((u64)m);
    }
    vc_acq((u64)m);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    maybe_switch_sync(); count(C_mutex_ops);
    auto it = mutexes.emplace((u64)m, SimMutex{-1}).first;
    if (it->second.owner >= 0) return EBUSY;
    it->second.owner = cur->id; vc_acq((u64)m); return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!cur) return 0;
    if (G.mask) checked_access((u64)m, 4, false);
    count(C_mutex_ops);
    auto it = mutexes.find((u64)m);
    if (it == mutexes.end() || it->second.owner != cur->id) violation(V_MUTEX, "thread %d unlocks a mutex it does not hold (held by %d)", cur->id, it == mutexes.end() ? -1 : it->second.owner);
    if (it != mutexes.end()) it->second.owner = -1;
    vc_rel((u64)m);
    Fiber *urgent = nullptr;
    for (int i = 0; i < nfib; i++) if (F[i].state == 2 && F[i].blocked_on == (u64)m) { F[i].state = 1; if (F[i].nopreempt || g_sched_off) urgent = &F[i]; }
    if (urgent && g_sched_off) do_switch(urgent); else maybe_switch_sync();
    return 0;
}
static std::unordered_map<u64, int> onces;
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    for (;;) {
        int &st = onces[(u64)o];
        maybe_switch_sync();
        if (st == 2) { vc_acq((u64)o); return 0; }
        if (st == 0) { st = 1; fn(); onces[(u64)o] = 2; vc_rel((u64)o); for (int i = 0; i < nfib; i++) if (F[i].state == 2 && F[i].blocked_on == (u64)o) F[i].state = 1; return 0; }
        yield_blocked((u64)o);
    }
}
int sim_sched_yield() { maybe_switch_sync(); return 0; }
}
bool mutexes_all_free() { for (auto &m : mutexes) if (m.second.owner >= 0) return false; return true; }
int mutex_held_by(int id) { int n = 0; for (auto &m : mutexes) if (m.second.owner == id) n++; return n; }
