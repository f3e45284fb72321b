// Operations: calls into the code under test together with everything checked around each call.
#include "sim.h"
#include "oracle.h"
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <new>
#include <cstdarg>

extern "C" {
struct mallinfo2 h_mallinfo2(void) ABSENT; struct mallinfo h_mallinfo(void) ABSENT;
// bionic's interface: its struct mallinfo has fields of type size_t
struct mallinfo2 droid_mallinfo(void) asm("h_mallinfo") ABSENT; struct mallinfo2 h_mallinfo_arena_info(size_t) ABSENT; struct mallinfo2 h_mallinfo_bin_info(size_t, size_t) ABSENT; size_t h_mallinfo_narenas(void) ABSENT; size_t h_mallinfo_nbins(void) ABSENT;
void h_malloc_disable(void) ABSENT; void h_malloc_enable(void) ABSENT; void h_malloc_disable_memory_tagging(void) ABSENT;
#define OPN(sym, ...) void *sut_##sym(__VA_ARGS__)
OPN(_Znwm, size_t); OPN(_Znam, size_t); OPN(_ZnwmRKSt9nothrow_t, size_t, const std::nothrow_t &); OPN(_ZnamRKSt9nothrow_t, size_t, const std::nothrow_t &);
OPN(_ZnwmSt11align_val_t, size_t, size_t); OPN(_ZnamSt11align_val_t, size_t, size_t);
OPN(_ZnwmSt11align_val_tRKSt9nothrow_t, size_t, size_t, const std::nothrow_t &); OPN(_ZnamSt11align_val_tRKSt9nothrow_t, size_t, size_t, const std::nothrow_t &);
#define OPD(sym, ...) void sut_##sym(__VA_ARGS__)
OPD(_ZdlPv, void *); OPD(_ZdaPv, void *); OPD(_ZdlPvRKSt9nothrow_t, void *, const std::nothrow_t &); OPD(_ZdaPvRKSt9nothrow_t, void *, const std::nothrow_t &);
OPD(_ZdlPvm, void *, size_t); OPD(_ZdaPvm, void *, size_t);
OPD(_ZdlPvSt11align_val_t, void *, size_t); OPD(_ZdaPvSt11align_val_t, void *, size_t);
OPD(_ZdlPvSt11align_val_tRKSt9nothrow_t, void *, size_t, const std::nothrow_t &); OPD(_ZdaPvSt11align_val_tRKSt9nothrow_t, void *, size_t, const std::nothrow_t &);
OPD(_ZdlPvmSt11align_val_t, void *, size_t, size_t); OPD(_ZdaPvmSt11align_val_t, void *, size_t, size_t);
typedef void (*ctor_t)();
extern ctor_t __start_sutinit[] __attribute__((weak)); extern ctor_t __stop_sutinit[] __attribute__((weak));
}

static std::unordered_map<int, Blk *> H;          // handle -> live block
static std::unordered_map<int, bool> Hbusy;
static std::map<std::pair<int, int>, std::pair<u64, u64>> st_base; static bool st_have_base; static u64 st_base_large;
static bool in_recovery; static int race_returned, race_invoked;
static const int ERR0 = 0x5a5;

static void drop_blk(Blk *b) { handoff_drop(b->serial); delete b; }
// ---------------------------------------------------------------- the call wrapper
struct Call { int faults = 0, faults_map = 0, faults_adv = 0; std::vector<u64> created; };
static u32 pool_tmp[MAXF][2];
static void pool_add(u32 x) { if (cur->pool_next < 2) pool_tmp[cur->id][cur->pool_next++] = x; }
static void pool_of(const Blk *b) { pool_add(b->small ? b->cls * 64 + b->arena : POOL_LARGE); }
static bool pool_for(u64 size, u64 align) { // where an allocation of this size comes from
    u64 a = adj(size); int ar = thread_arena_seen[cur->id];
    if (align > PG || (size && a > MAX_SLAB)) { pool_add(POOL_LARGE); return true; }
    if (align > 16) return false; // depends on the layout of the class
    pool_add((size ? size_class_of(a) : 0) * 64 + (ar < 0 ? 63 : ar)); return true;
}
// work done by one call: depends on the size of the block it is about, never on how many others there are
static void work_check(int kind, const Fiber *f, u64 steps) {
    if (g_misuse_running || f->nh_calls || kind > 3) return;
    int small = 0, large = 0; u64 bytes = 0;
    for (int i = 0; i < f->pool_n; i++) if (f->pool[i] == POOL_LARGE) large++; else { small++; bytes += CLS_SIZE[f->pool[i] / 64]; }
    if (!f->pool_n && kind != 1) return; // concerns the whole allocator
    count(C_work_checks);
    int reqs = kind == 0 ? 0 : kind == 1 ? (small ? 2 : 7) : kind == 2 ? (large ? 3 : 2) : large ? 12 : 4;
    static const char *const nm[] = {"size query", "allocation", "deallocation", "reallocation"};
    if (f->mem_requests > reqs) violation(V_WORK, "a %s makes %d kernel requests about memory", nm[kind], f->mem_requests);
    if ((kind == 3 && large) || (large && f->grew) || !f->pool_n) return;
    u64 bound = large ? 2500 : 1000 * (kind == 3 ? 2 : 1) + bytes / 4;
    if (steps > bound) violation(V_WORK, "a %s takes %lu steps (%lu expected at most for its size)", nm[kind], (unsigned long)steps, (unsigned long)bound);
}
template <class Fn> static void sut(Call &cr, int kind, Fn fn) {
    Fiber *f = cur;
    bool o_in = f->in_sut; int o_kind = f->cur_kind; u64 o_pts = f->call_pts; int o_fc = f->faults_call, o_fm = f->faults_map, o_fa = f->faults_adv; auto *o_rc = f->regions_created;
    bool o_k = f->kerr_injected, o_ef = f->expect_fatal; int o_ec = f->expect_cls;
    f->in_sut = true; f->depth++; f->cur_kind = kind ? kind : (f->depth > 1 ? o_kind : 0); f->call_pts = G.pts; f->faults_call = f->faults_map = f->faults_adv = 0; f->regions_created = &cr.created;
    f->kerr_injected = false; f->expect_fatal = false; int o_ti = f->tag_inv, ti = f->tag_inv = g_tagstate;
    if (kind == 1 || kind == 3) { g_inflight_alloc++; if (f->depth == 1) f->large_peak = 0; large_level(); }
    int o_pn = f->pool_n; u32 o_p0 = f->pool[0], o_p1 = f->pool[1];
    f->pool_n = g_inited ? f->pool_next : 0; f->pool_next = 0; if (f->pool_n) count(C_pool_calls);
    for (int i = 0; i < f->pool_n; i++) f->pool[i] = pool_tmp[f->id][i];
    size_t o_out = f->fwant.size();
    u64 o_np = f->nested_pts; int o_mr = f->mem_requests; bool o_gr = f->grew, o_ini = g_inited; u64 pts0 = G.pts; f->nested_pts = 0; f->mem_requests = 0; f->grew = false;
    count(C_api_calls); ev(0x10, kind);
    fn();
    if (o_ini && f->depth == 1) work_check(kind, f, G.pts - pts0 - f->nested_pts);
    f->nested_pts = o_np + (G.pts - pts0); f->mem_requests = o_mr; f->grew = o_gr;
    f->pool_n = f->depth > 1 ? 0 : o_pn; f->pool[0] = o_p0; f->pool[1] = o_p1; // after a nested call the outer one counts as concerning everything
    if (f->fwant.size() > o_out && !f->allow_fatal && !g_misuse_running) violation(V_SYSCALL, "a call that returned has printed \"%.80s\"", f->fwant.c_str() + o_out);
    f->tag_inv = o_ti; f->tag_last = ti;
    if (kind == 1 || kind == 3) g_inflight_alloc--;
    cr.faults = f->faults_call; cr.faults_map = f->faults_map; cr.faults_adv = f->faults_adv;
    if (f->expect_fatal) violation((VClass)f->expect_cls, "a call returned to the program although a required system call failed in a way that must stop the process");
    f->in_sut = o_in; f->depth--; f->cur_kind = o_kind; f->call_pts = o_pts; f->faults_call = o_fc + (f->depth ? cr.faults : 0); f->faults_map = o_fm + (f->depth ? cr.faults_map : 0); f->faults_adv = o_fa + (f->depth ? cr.faults_adv : 0); f->regions_created = o_rc;
    if (o_rc && f->depth) o_rc->insert(o_rc->end(), cr.created.begin(), cr.created.end());
    f->kerr_injected = o_k; f->expect_fatal = o_ef; f->expect_cls = o_ec;
    if (!f->depth && !f->may_hold) {
        if (mutex_held_by(f->id)) violation(V_MUTEX, "a call returned with %d lock(s) still held", mutex_held_by(f->id));
    }
    if (CFG.seal && g_init_done) {
        count(C_seal_checks);
        for (int k = 1; k < 16; k++) if (!(f->pkru >> k & 1)) violation(V_SEAL, "a call returned with allocator state (key %d) still accessible to the thread", k);
    }
}
#include "rngcheck.inc"
static void leak_check(Call &cr, const char *what) {
    if (g_misuse_running || cr.faults_map) return;
    for (u64 id : cr.created) { Region &r = regions[id]; if (r.state == RG_FRESH && r.bytes) { violation(V_LEAK, "%s: mapping [%#lx,%#lx) made by the call is neither used nor released (%lu bytes)", what, (unsigned long)r.lo, (unsigned long)r.hi, (unsigned long)r.bytes); r.state = RG_GONE; } }
}
static u64 quiet_usable(Blk *b) { // usable-size query without faults or switches of its own
    Call c; u64 u = 0; int o = cur->nopreempt; cur->nopreempt = 1000;
    pool_of(b); sut(c, 0, [&] { u = h_malloc_usable_size((void *)b->p); });
    cur->nopreempt = o;
    return u;
}
// may an allocation of this request legitimately fail?
static u64 region_table_max() { u64 mx = CFG.class_region / PG / 24, t = 128; while (t * 2 <= mx) t *= 2; return t; }
static bool may_fail_for_good(u64 size, u64 align) {
    if (size >= (1ull << 46) || align >= (1ull << 40)) return true;
    u64 a = adj(size); bool large = a > MAX_SLAB || align > PG;
    if (large) return (std::max(large_level(), cur->large_peak) + 2) * 4 > region_table_max() * 3;
    // class area exhausted?
    for (u32 c = 1; c < CLS_SIZE.size(); c++) {
        if (CLS_SIZE[c] < a || (align > 16 && CLS_SIZE[c] % align)) continue;
        u64 cap = CFG.class_region / slab_len(c);
        for (u64 ar = 0; ar < CFG.n_arena; ar++) { u64 n = cs(ar, c).nslabs; if (n + n / CFG.guard_iv + 1 >= cap && (thread_arena_seen[cur->id] < 0 || (u64)thread_arena_seen[cur->id] == ar)) return true; }
        break;
    }
    if (!size) return CFG.class_region < (1 << 26); // size-zero slabs are not visible to the simulator
    return false;
}
static bool may_fail(u64 size, u64 align, Call &cr) { return cr.faults || may_fail_for_good(size, align); }
static void null_check(u64 size, u64 align, Call &cr, int err, bool check_errno, const char *what) {
    count(C_alloc_null);
    if (!may_fail(size, align, cr)) violation(in_recovery ? V_NO_RECOVERY : V_SPURIOUS_OOM, "%s of %lu bytes (alignment %lu) failed although no memory was refused", what, (unsigned long)size, (unsigned long)align);
    if (check_errno && err != ENOMEM) violation(V_OOM_ERRNO, "%s of %lu bytes failed with errno %d instead of ENOMEM", what, (unsigned long)size, err);
    leak_check(cr, what);
}
static Blk *settle(u64 p, u64 req, u64 align, bool calloc_like, u64 preserve, bool aligned, Call &cr, Blk *old_content) {
    g_settling++;
    Blk *b = register_block(p, req, align, calloc_like, preserve, aligned);
    if (b->small) { nmd[{b->arena, b->cls}].first++; if (cr.faults == 0) {} }
    else {
        b->usable = quiet_usable(b);
        if (b->usable < req) violation(V_USABLE, "usable size %lu of a large block is below the requested %lu", (unsigned long)b->usable, (unsigned long)req);
    }
    if (old_content && !old_content->zero_size && !old_content->nofill && !b->zero_size) {
        u64 lim = std::min(old_content->usable, req);
        if (lim && range_all(b->addr, b->addr + lim, OWN_SUT, PROT_READ, PROT_READ)) { i64 o = pattern_bad(b->addr, old_content->tag, old_content->usable, lim); if (o >= 0) violation(V_REALLOC_CONTENT, "reallocated block #%d (%lu to %lu bytes): content differs at offset %ld", old_content->serial, (unsigned long)old_content->req, (unsigned long)req, (long)o); }
    }
    finish_block(b, calloc_like, preserve); g_settling--;
    if (cur->transit) {}
    leak_check(cr, "successful call");
    if (b->small && !b->zero_size && (hash3(g_seed, b->serial, 9) % 5) == 0) { u64 u = quiet_usable(b); if (u < req) violation(V_USABLE, "usable size %lu is below the requested %lu", (unsigned long)u, (unsigned long)req); else if (u > b->usable) violation(V_USABLE, "usable size %lu of a slot of %lu bytes reaches past it", (unsigned long)u, (unsigned long)cls_real(b->cls)); }
    return b;
}

// ---------------------------------------------------------------- allocation
static u64 aclass(u64 size) { return size; }
Blk *do_alloc(int api, u64 size, u64 align, u64 nmemb, u64 flags) {
    Call cr; u64 p = 0; int err = ERR0, rc = 0; bool threw = false; void *mp = (void *)0x1234567; u64 req = size, al = 16; bool chk_errno = true, null_ok = true; const char *nm = opkind_name[api];
    bool throwing = false; cur->nh_mode = 0; cur->nh_calls = 0; (void)aclass;
    if (flags & AF_FORCE) cur->force_enomem = true;
    int nh = (flags >> 8) & 7; cur->nh_k = 1 + ((flags >> 12) & 3);
    bool first_failed = false; (void)first_failed;
    if (CFG.android && (api == OP_VALLOC || api == OP_PVALLOC)) { if (api == OP_PVALLOC) req = size = pg_up(size); api = OP_MEMALIGN; align = PG; } // not in bionic
    switch (api) {
    case OP_MALLOC: pool_for(size, 16); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_malloc(size); err = errno; }); break;
    case OP_REALLOC_NULL: pool_for(size, 16); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_realloc(nullptr, size); err = errno; }); break;
    case OP_CALLOC: req = nmemb * size; pool_for(req, 16); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_calloc(nmemb, size); err = errno; }); break;
    case OP_ALIGNED: al = align; pool_for(size, align); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_aligned_alloc(align, size); err = errno; }); break;
    case OP_MEMALIGN: al = align; pool_for(size, align); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_memalign(align, size); err = errno; }); break;
    case OP_VALLOC: al = PG; sut(cr, 1, [&] { errno = ERR0; p = (u64)h_valloc(size); err = errno; }); break;
    case OP_PVALLOC: al = PG; req = pg_up(size); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_pvalloc(size); err = errno; }); break;
    case OP_POSIX_MEMALIGN: al = align; chk_errno = false; pool_for(size, align); sut(cr, 1, [&] { rc = h_posix_memalign(&mp, align, size); });
        if (rc == 0) p = (u64)mp; else {
            if (mp != (void *)0x1234567) violation(V_MEMPTR, "posix_memalign failed but changed the caller's pointer");
            if (rc != ENOMEM) violation(V_OOM_ERRNO, "posix_memalign(%lu, %lu) returned %d instead of ENOMEM", (unsigned long)align, (unsigned long)size, rc);
        }
        if (rc == 0 && mp == (void *)0x1234567) violation(V_BADERR, "posix_memalign returned success without storing a pointer");
        break;
    case OP_NEW: {
        int v = flags & 7; chk_errno = false; cur->nh_mode = nh; if (v & 4) al = align; throwing = !(v & 2); null_ok = !throwing;
        sut(cr, 1, [&] {
            try {
                switch (v) {
                case 0: p = (u64)sut__Znwm(size); break;
                case 1: p = (u64)sut__Znam(size); break;
                case 2: p = (u64)sut__ZnwmRKSt9nothrow_t(size, std::nothrow); break;
                case 3: p = (u64)sut__ZnamRKSt9nothrow_t(size, std::nothrow); break;
                case 4: p = (u64)sut__ZnwmSt11align_val_t(size, align); break;
                case 5: p = (u64)sut__ZnamSt11align_val_t(size, align); break;
                case 6: p = (u64)sut__ZnwmSt11align_val_tRKSt9nothrow_t(size, align, std::nothrow); break;
                case 7: p = (u64)sut__ZnamSt11align_val_tRKSt9nothrow_t(size, align, std::nothrow); break;
                }
            } catch (const std::bad_alloc &) { threw = true; count(C_bad_alloc); }
        });
        cur->nh_mode = 0; cur->relief = false;
        break;
    }
    default: return nullptr;
    }
    cur->force_enomem = false;
    ev(0x11, p, err, rc + threw * 64);
    vlog("%s(size %lu align %lu) = %#lx%s", nm, (unsigned long)size, (unsigned long)al, (unsigned long)p, threw ? " threw bad_alloc" : "");
    if (g_misuse_running) { if (!p) return nullptr; }
    if (api == OP_NEW) {
        if (threw && !throwing) violation(V_CXX, "nothrow operator new threw");
        if (!threw && !p && throwing) violation(V_CXX, "throwing operator new returned null");
        bool refused = cr.faults || may_fail(size, al, cr);
        if (cur->nh_calls && !refused) violation(V_CXX, "the new-handler was called although no memory was refused");
        if (!p && nh && !cur->nh_calls && refused) violation(V_CXX, "memory was refused but the installed new-handler was not called");
        if (nh == 1 || nh == 3) { if (!p && cur->nh_calls <= 20) violation(V_CXX, "operator new gave up although the new-handler did not (called %d times)", cur->nh_calls); if (cur->nh_calls > cur->nh_k + cr.faults && !may_fail_for_good(size, al)) violation(V_CXX, "new-handler called %d times, more often than memory was refused", cur->nh_calls); }
        if ((nh == 1 || nh == 3) && cur->nh_calls > cur->nh_k + 1 && !may_fail_for_good(size, al)) violation(V_CXX, "operator new called the new-handler %d times although memory was available after %d", cur->nh_calls, cur->nh_k);
        if (nh == 2 && cur->nh_calls > 1) violation(V_CXX, "new-handler called again after it threw bad_alloc");
    }
    if (!p) { null_check(req, al, cr, err, chk_errno, nm); return nullptr; }
    (void)null_ok;
    Blk *b = settle(p, req, al, api == OP_CALLOC, 0, api == OP_ALIGNED || api == OP_MEMALIGN || api == OP_VALLOC || api == OP_PVALLOC || api == OP_POSIX_MEMALIGN, cr, nullptr);
    if (api == OP_NEW) { b->isnew = true; b->newv = flags & 7; if (b->newv & 4) b->align = align; }
    R->op_cnt[api]++;
    return b;
}
void nh_dispatch() {
    Fiber *f = cur; f->nh_calls++; count(C_new_handler_calls);
    bool o_in = f->in_sut; f->in_sut = false;
    int mode = f->nh_mode, calls = f->nh_calls, k = f->nh_k;
    if (mode == 2 || calls > 20) // gives up, at the latest when memory is exhausted for good
        { f->in_sut = o_in; throw std::bad_alloc(); }
    if (mode == 3) { bool of = f->force_enomem; f->force_enomem = false; count(C_reentrant_calls); int on = f->nopreempt; f->nopreempt = 1000; Blk *b = do_alloc(OP_MALLOC, 40 + 100 * calls, 16, 0, 0); f->nopreempt = on; f->nh_mode = mode; f->nh_calls = calls; cur->nh_k = k; if (b) do_free(b, 0); f->force_enomem = of; }
    if (calls >= k) { f->force_enomem = false; f->relief = true; } // memory is available from now on
    f->in_sut = o_in;
}

// ---------------------------------------------------------------- deallocation
static void note_stale(Blk *b) { if (stale.size() < 4000) stale.push_back(StalePtr{b->p, b->addr, b->usable, b->req, b->small, b->cls, b->arena, b->zero_size}); }
// kind: 0 free 1 cfree 2 free_sized 3 delete (plain) 4 delete sized
void do_free(Blk *b, int kind) {
    if (!verify(b, "before free")) {}
    u64 p = b->p, req = b->req, al = b->align; int v = b->newv;
    Call cr; int e0 = 100 + (int)(hash3(g_seed, b->serial, 3) % 30), err = e0;
    live_remove(b); ev(0x20, p, kind);
    vlog("free(%#lx) kind %d, block #%d of %lu bytes", (unsigned long)p, kind, b->serial, (unsigned long)req);
    u64 base = 0, inf = 0; size_t piece_ix = 0; (void)piece_ix;
    if (b->small) { retire_small_invoke(b); nmd[{b->arena, b->cls}].second++; }
    else { large_frees_inv++; base = large_frees_inv; inf = large_inflight + large_tent; large_inflight++; retire_large(b, base, inf); }
    note_stale(b);
    pool_of(b);
    sut(cr, 2, [&] {
        errno = e0;
        switch (kind) {
        case 0: h_free((void *)p); break;
        case 1: CFG.android ? h_free((void *)p) : h_cfree((void *)p); break;
        case 2: h_free_sized((void *)p, req); break;
        case 3: switch (v) { case 0: sut__ZdlPv((void *)p); break; case 1: sut__ZdaPv((void *)p); break;
            case 2: sut__ZdlPvRKSt9nothrow_t((void *)p, std::nothrow); break; case 3: sut__ZdaPvRKSt9nothrow_t((void *)p, std::nothrow); break;
            case 4: sut__ZdlPvSt11align_val_t((void *)p, al); break; case 5: sut__ZdaPvSt11align_val_t((void *)p, al); break;
            case 6: sut__ZdlPvSt11align_val_tRKSt9nothrow_t((void *)p, al, std::nothrow); break; case 7: sut__ZdaPvSt11align_val_tRKSt9nothrow_t((void *)p, al, std::nothrow); break; } break;
        case 4: switch (v & 5) { case 0: sut__ZdlPvm((void *)p, req); break; case 1: sut__ZdaPvm((void *)p, req); break; case 4: sut__ZdlPvmSt11align_val_t((void *)p, req, al); break; case 5: sut__ZdaPvmSt11align_val_t((void *)p, req, al); break; } break;
        }
        err = errno;
    });
    count(C_frees);
    if (kind <= 1 && err != e0) violation(V_ERRNO, "free changed errno from %d to %d", e0, err);
    if (b->small) { retire_small_done(b); after_small_free(b); }
    else {
        large_inflight--;
        bool exempt = b->usable >= CFG.rq_skip || (CFG.rq_rand + CFG.rq_queue == 0);
        check_released(b->region, b->addr, b->addr + pg_up(b->usable), b->tag, b->addr, b->usable, cr.faults > 0, cr.faults_adv > 0, exempt, "freed large block");
    }
    leak_check(cr, "free");
    drop_blk(b);
}

// ---------------------------------------------------------------- reallocation
Blk *do_realloc(Blk *b, u64 n, u64 flags) {
    verify(b, "before realloc");
    Call cr; u64 p = b->p, q = 0; int err = ERR0;
    if (flags & AF_FORCE) cur->force_enomem = true;
    live_remove(b); ev(0x30, p, n); cur->transit = b;
    u64 base, inf;
    if (b->small) { ClsState &c = cs(b->arena, b->cls); base = c.frees_inv; inf = c.inflight + c.tent; c.tent++; }
    else { base = large_frees_inv; inf = large_inflight + large_tent; large_tent++; }
    pool_of(b); if (!pool_for(n, 16)) cur->pool_next = 0;
    sut(cr, 3, [&] { errno = ERR0; q = (u64)h_realloc((void *)p, n); err = errno; });
    cur->force_enomem = false; cur->transit = nullptr; count(C_reallocs);
    if (b->small) cs(b->arena, b->cls).tent--;
    else if (!q || untag(q) != b->addr) large_tent--;
    ev(0x31, q, err); vlog("realloc(%#lx, %lu) = %#lx (block #%d of %lu bytes)", (unsigned long)p, (unsigned long)n, (unsigned long)q, b->serial, (unsigned long)b->req);
    if (!q) {
        null_check(n, 16, cr, err, true, "realloc");
        // the old block must be untouched
        if (!b->zero_size && !range_all(b->addr, b->addr + b->usable, OWN_SUT, PROT_READ | PROT_WRITE, PROT_READ | PROT_WRITE)) { violation(V_REALLOC_FAIL, "failed realloc of block #%d left its memory unusable", b->serial); drop_blk(b); return nullptr; }
        if (!b->zero_size && !b->nofill) { i64 o = pattern_bad(b->addr, b->tag, b->usable, b->usable); if (o >= 0) violation(V_REALLOC_FAIL, "failed realloc changed block #%d at offset %ld", b->serial, (long)o); }
        live_insert(b);
        if (!b->small || !b->zero_size) { u64 u = quiet_usable(b); if (u != b->usable) violation(V_REALLOC_FAIL, "failed realloc changed the usable size of block #%d from %lu to %lu", b->serial, (unsigned long)b->usable, (unsigned long)u); }
        check_guards(b, "after failed realloc");
        return b;
    }
    if (untag(q) == b->addr) { // in place
        if (q != p) violation(V_TAG, "in-place realloc returned a different pointer %#lx for %#lx", (unsigned long)q, (unsigned long)p);
        u64 ousable = b->usable; i64 o = b->zero_size ? -1 : 0;
        if (b->small) {
            if (n > b->usable) violation(V_SIZE, "realloc to %lu bytes returned the old slot of usable size %lu", (unsigned long)n, (unsigned long)b->usable);
            if (!b->zero_size) o = pattern_bad(b->addr, b->tag, b->usable, b->usable);
        } else {
            u64 oend = pg_up(b->addr + ousable), rg = b->ghi - oend; 
            u64 u = quiet_usable(b);
            if (u < n) violation(V_USABLE, "usable size %lu after realloc to %lu", (unsigned long)u, (unsigned long)n);
            if (u > ousable && !range_all(b->addr, b->addr + u, OWN_SUT, 3, 3)) { violation(V_ACCESS, "realloc claims %lu usable bytes that are not accessible", (unsigned long)u); large_tent--; drop_blk(b); return nullptr; }
            u64 nend = pg_up(b->addr + u);
            if (nend < oend) {
                count(C_shrink_inplace);
                b->shrunk = true; b->ghi = nend + rg; live_large_bytes -= 0;
                u64 tail = oend - nend; bool exempt = tail >= CFG.rq_skip || (CFG.rq_rand + CFG.rq_queue == 0);
                pieces.push_back(Piece{b->region, nend + rg, oend + rg, b->addr, ousable, base + 1, inf, exempt, false, false}); large_frees_inv++;
                check_released(b->region, nend, oend, b->tag, b->addr, ousable, cr.faults > 0, cr.faults_adv > 0, false, "released tail of a shrunk block");
                if (exempt) check_released(b->region, nend + rg, oend + rg, b->tag, b->addr, ousable, cr.faults > 0, cr.faults_adv > 0, true, "released tail of a shrunk block");
            }
            large_tent--;
            b->usable = u;
            o = pattern_bad(b->addr, b->tag, ousable, std::min(u, ousable));
        }
        if (o >= 0 && !b->nofill) violation(V_REALLOC_CONTENT, "in-place realloc of block #%d (%lu to %lu bytes) changed content at offset %ld", b->serial, (unsigned long)b->req, (unsigned long)n, (long)o);
        b->req = n; live_insert(b); b->nofill = false;
        check_guards(b, "after in-place realloc");
        fill(b); leak_check(cr, "realloc");
        return b;
    }
    // moved
    note_stale(b);
    if (b->small) { retire_small_invoke(b, base, inf, true); retire_small_done(b); nmd[{b->arena, b->cls}].second++; }
    else { large_frees_inv++; retire_large(b, base + 1, inf); }
    bool was_new = b->isnew; int nv = b->newv; (void)was_new; (void)nv;
    Blk *nb = settle(q, n, 16, false, std::min(b->usable, (u64)-1), false, cr, b);
    // settle() used "preserve" = old usable size
    if (b->small) { cs(b->arena, b->cls).inflight++; retire_small_done(b); after_small_free(b); }
    else {
        bool exempt = b->usable >= CFG.rq_skip || (CFG.rq_rand + CFG.rq_queue == 0);
        check_released(b->region, b->addr, b->addr + pg_up(b->usable), b->tag, b->addr, b->usable, cr.faults > 0, cr.faults_adv > 0, exempt, "large block given up by realloc");
    }
    drop_blk(b);
    return nb;
}

// ---------------------------------------------------------------- simple entry used re-entrantly
void reent_use() {
    bool o = cur->in_sut; cur->in_sut = false;
    Blk *a = do_alloc(OP_MALLOC, 24, 16, 0, 0), *b = do_alloc(OP_CALLOC, 8, 16, 9, 0), *c = do_alloc(OP_MALLOC, 200000, 16, 0, 0);
    if (a) a = do_realloc(a, 300, 0);
    if (a) do_free(a, 0);
    if (b) do_free(b, 0);
    if (c) do_free(c, 0);
    cur->in_sut = o;
}

// ---------------------------------------------------------------- statistics
struct Bin { u64 nm = 0, nd = 0, slab = 0, alloc = 0; };
struct InfoOut { std::map<std::pair<int, int>, Bin> bins; u64 large = 0; bool have_large = false, ok = false; std::string text; std::map<int, u64> arena_slab, arena_alloc; };
static ssize_t ck_write(void *c, const char *b, size_t n) {
    InfoOut *o = (InfoOut *)c; o->text.append(b, n);
    return n;
}
struct ReentCookie { InfoOut *o; int n; };
static ssize_t ck_write_reent(void *c, const char *b, size_t n) {
    ReentCookie *k = (ReentCookie *)c; k->o->text.append(b, n);
    if (cur && cur->in_sut && k->n++ < 3) { count(C_reentrant_calls); bool o = cur->in_sut; cur->in_sut = false; Blk *x = do_alloc(OP_MALLOC, 33 + 50 * k->n, 16, 0, 0); if (x) do_free(x, 0); cur->in_sut = o; }
    return n;
}
static struct mallinfo2 droid_call(int which, size_t a = 0, size_t b = 0) {
    struct mallinfo2 m; Call c; sut(c, 0, [&] { m = which == 0 ? droid_mallinfo() : which == 1 ? h_mallinfo_arena_info(a) : h_mallinfo_bin_info(a, b); });
    return m;
}
static bool droid_empty(const struct mallinfo2 &m) { return !(m.arena | m.ordblks | m.smblks | m.hblks | m.hblkhd | m.usmblks | m.fsmblks | m.uordblks | m.fordblks | m.keepcost); }
static InfoOut droid_info() { // bionic's malloc_info is made from these
    InfoOut o; o.ok = o.have_large = true; Call c; size_t na = 0, nb = 0;
    sut(c, 0, [&] { na = h_mallinfo_narenas(); nb = h_mallinfo_nbins(); });
    if (na != CFG.n_arena + 1 || nb != CLS_SIZE.size()) { violation(V_STATS, "%zu arenas with %zu classes reported", na, nb); return o; }
    for (size_t a = 0; a < CFG.n_arena; a++) {
        struct mallinfo2 m = droid_call(1, a); o.arena_slab[a] = m.hblkhd; o.arena_alloc[a] = m.fsmblks;
        if (m.arena | m.ordblks | m.smblks | m.hblks | m.usmblks | m.uordblks | m.fordblks | m.keepcost) violation(V_STATS, "unused fields of the information on arena %zu are set", a);
        for (size_t b = 0; b < nb; b++) { m = droid_call(2, a, b); if (!droid_empty(m)) o.bins[{(int)a, (int)b}] = Bin{m.uordblks, m.fordblks, 0, m.ordblks}; }
    }
    struct mallinfo2 m = droid_call(1, CFG.n_arena); o.large = m.hblkhd;
    if (m.uordblks != m.hblkhd || (m.arena | m.ordblks | m.smblks | m.hblks | m.usmblks | m.fsmblks | m.fordblks | m.keepcost)) violation(V_STATS, "information on large blocks is inconsistent");
    if (!droid_empty(droid_call(1, CFG.n_arena + 1)) || !droid_empty(droid_call(1, ~0ul)) || !droid_empty(droid_call(2, CFG.n_arena, 1)) || !droid_empty(droid_call(2, 0, nb)) || !droid_empty(droid_call(2, ~0ul, ~0ul))) violation(V_STATS, "statistics reported for an arena or class that does not exist");
    return o;
}
static InfoOut malloc_info_call(bool reent) {
    if (CFG.android) return droid_info();
    InfoOut o; ReentCookie k{&o, 0}; cookie_io_functions_t io = {nullptr, reent ? ck_write_reent : ck_write, nullptr, nullptr};
    FILE *f = fopencookie(reent ? (void *)&k : (void *)&o, "w", io);
    if (reent) setvbuf(f, nullptr, _IONBF, 0);
    Call c; int rc = -1;
    sut(c, 0, [&] { rc = h_malloc_info(0, f); });
    fclose(f);
    if (rc != 0) violation(V_STATS, "malloc_info(0) returned %d", rc);
    const char *t = o.text.c_str(); int heap = -1;
    while (*t) {
        u64 a, b, c2, d, e, s;
        if (!strncmp(t, "<heap nr=\"", 10)) { heap = atoi(t + 10); t += 10; }
        else if (sscanf(t, "<bin nr=\"%lu\" size=\"%lu\"><nmalloc>%lu</nmalloc><ndalloc>%lu</ndalloc><slab_allocated>%lu</slab_allocated><allocated>%lu</allocated></bin>", &a, &s, &b, &c2, &d, &e) == 6) { o.bins[{heap, (int)a}] = Bin{b, c2, d, e}; if (a >= CLS_SIZE.size() || CLS_SIZE[a] != s) violation(V_STATS, "malloc_info reports bin %lu with size %lu", (unsigned long)a, (unsigned long)s); t += 5; }
        else if (sscanf(t, "<allocated_large>%lu</allocated_large>", &a) == 1) { o.large = a; o.have_large = true; t += 5; }
        else t++;
    }
    std::string beg = "<malloc version=\"hardened_malloc-1\">";
    o.ok = o.text.compare(0, beg.size(), beg) == 0 && o.text.size() >= 9 && o.text.compare(o.text.size() - 9, 9, "</malloc>") == 0;
    if (!o.ok) violation(V_STATS, "malloc_info output is malformed: %.80s", o.text.c_str());
    return o;
}
static void stats_check(const char *when) {
    struct mallinfo2 mi; Call c;
    sut(c, 0, [&] { mi = CFG.android ? droid_mallinfo() : h_mallinfo2(); });
    if (!CFG.stats || !g_init_done) {
        if (mi.hblkhd || mi.uordblks || mi.fordblks || mi.usmblks) violation(V_STATS, "%s: statistics reported although they are disabled", when);
        return;
    }
    count(C_stats_checks);
    InfoOut o = malloc_info_call(false);
    if (!o.have_large) { violation(V_STATS, "%s: malloc_info lacks the large total", when); return; }
    std::map<std::pair<int, int>, Bin> want; u64 lg = 0;
    for (auto &kv : live) { Blk *b = kv.second; if (b->small) want[{b->arena, b->cls}].alloc += cls_real(b->cls); else lg += b->usable; }
    for (auto &s : slabs) if (s.second.rw) want[{s.second.arena, s.second.cls}].slab += s.second.len;
    for (auto &n : nmd) { want[n.first].nm += n.second.first; want[n.first].nd += n.second.second; }
    for (auto &n : st_base) { want[n.first].nm += n.second.first; want[n.first].nd += n.second.second; }
    std::set<std::pair<int, int>> keys; for (auto &k : want) keys.insert(k.first); for (auto &k : o.bins) keys.insert(k.first);
    u64 tot_slab = 0, tot_alloc = 0; std::map<int, u64> as, aa;
    for (auto &k : keys) {
        Bin w = want[k], g = o.bins[k]; if (CFG.android) { as[k.first] += w.slab; g.slab = w.slab; aa[k.first] += w.alloc; } tot_slab += g.slab; tot_alloc += g.alloc;
        if (k.first < 0 || k.first >= (int)CFG.n_arena) { violation(V_STATS, "%s: malloc_info reports arena %d", when, k.first); continue; }
        if (k.second == 0 && CFG.android) { u64 z = o.arena_slab[k.first]; for (auto &q : keys) if (q.first == k.first) z -= want[q].slab; w.slab = g.slab = z; tot_slab += z; as[k.first] += z; }
        if (k.second == 0) { w.slab = g.slab; if (g.slab % 4096 || g.slab / 16 < w.alloc / 16) violation(V_STATS, "%s: size-zero slabs reported as %lu bytes with %lu in use", when, (unsigned long)g.slab, (unsigned long)w.alloc); }
        if (g.nm != w.nm || g.nd != w.nd || g.slab != w.slab || g.alloc != w.alloc) {
            violation(V_STATS, "%s: arena %d class %u reports nmalloc %lu ndalloc %lu slab_allocated %lu allocated %lu, expected %lu %lu %lu %lu", when, k.first, CLS_SIZE[k.second], (unsigned long)g.nm, (unsigned long)g.nd, (unsigned long)g.slab, (unsigned long)g.alloc, (unsigned long)w.nm, (unsigned long)w.nd, (unsigned long)w.slab, (unsigned long)w.alloc);
            return;
        }
    }
    if (CFG.android) for (auto &k : o.arena_slab) if (k.second != as[k.first] || o.arena_alloc[k.first] != aa[k.first]) { violation(V_STATS, "%s: arena %d reports %lu bytes of slabs and %lu allocated, expected %lu and %lu", when, k.first, (unsigned long)k.second, (unsigned long)o.arena_alloc[k.first], (unsigned long)as[k.first], (unsigned long)aa[k.first]); return; }
    if (o.large != lg) { violation(V_STATS, "%s: large total reported as %lu, live large blocks have %lu", when, (unsigned long)o.large, (unsigned long)lg); return; }
    if (mi.hblkhd != tot_slab + lg || mi.uordblks != tot_alloc + lg || mi.fordblks != mi.hblkhd - mi.uordblks || mi.usmblks != mi.hblkhd)
        violation(V_STATS, "%s: mallinfo2 reports hblkhd %lu uordblks %lu fordblks %lu usmblks %lu, expected %lu %lu", when, mi.hblkhd, mi.uordblks, mi.fordblks, mi.usmblks, (unsigned long)(tot_slab + lg), (unsigned long)(tot_alloc + lg));
}
static void stats_baseline() {
    if (!CFG.stats || !g_init_done) return;
    InfoOut o = malloc_info_call(false);
    for (auto &k : o.bins) {
        st_base[k.first] = {k.second.nm, k.second.nd};
        auto it = nmd.find(k.first); if (it != nmd.end()) { st_base[k.first].first -= it->second.first; st_base[k.first].second -= it->second.second; }
        if (st_base[k.first].first != st_base[k.first].second || st_base[k.first].first > 2) violation(V_STATS, "after initialisation class %u has %lu allocations and %lu frees", CLS_SIZE[k.first.second], (unsigned long)k.second.nm, (unsigned long)k.second.nd);
    }
}

// ---------------------------------------------------------------- trim
// quiet: nothing runs concurrently. When the kernel refuses to remap a slab, only the slab's own class may keep empty slabs.
static void trim_call(bool quiet) {
    trim_released.clear(); trim_purged.clear(); trim_refused.clear(); in_trim_watch = quiet; Call c; int rc = 0;
    bool purge = CFG.android && hash3(g_seed, cur->cur_op, 0x9e) % 2;
    sut(c, 0, [&] { rc = purge ? h_mallopt(-101, 0) : h_malloc_trim(0); });
    if (purge) { if (rc != 1) violation(V_TRIM, "mallopt(M_PURGE) returned %d", rc); rc = !trim_released.empty(); }
    in_trim_watch = false; count(C_trims); ev(0x40, rc); vlog("malloc_trim() = %d", rc);
    if (rc != 0 && rc != 1) violation(V_TRIM, "malloc_trim returned %d", rc);
    if (!quiet) return;
    if (!g_init_done) { if (rc) violation(V_TRIM, "malloc_trim before initialisation claims to have released memory"); return; }
    count(C_trim_released, trim_released.size());
    if (rc != (trim_released.empty() ? 0 : 1)) violation(V_TRIM, "malloc_trim returned %d but released %lu slabs", rc, (unsigned long)trim_released.size());
    if (c.faults) count(C_trim_faulted);
    std::set<u64> used; for (auto &kv : live) if (kv.second->small && !kv.second->zero_size) { SlabRec *s = slab_of(kv.first); if (s) used.insert(s->lo); }
    std::map<std::pair<int, int>, u64> empty; std::set<u64> purged(trim_purged.begin(), trim_purged.end());
    for (auto &s : slabs) if (s.second.rw && !used.count(s.first) && !trim_refused.count({s.second.arena, s.second.cls})) {
        empty[{s.second.arena, s.second.cls}]++;
        u64 sz = cls_real(s.second.cls);
        if (CFG.ext && sz >= 20480 && (CFG.q_rand || CFG.q_queue) && !g_in_child) {
            auto f = freed.find(s.first); 
            if (f != freed.end() && !c.faults && !purged.count(s.first)) violation(V_TRIM, "withheld block at %#lx of class %lu was not purged by malloc_trim", (unsigned long)s.first, (unsigned long)sz);
        }
    }
    for (auto &e : empty) {
        u64 allowed = std::min<u64>(q_total(e.first.second), cs(e.first.first, e.first.second).frees_inv);
        if (g_in_child) allowed += 64;
        if (e.second > allowed) violation(V_TRIM, "after malloc_trim class %lu arena %d still has %lu accessible slabs without blocks, at most %lu can be withheld", (unsigned long)cls_real(e.first.second), e.first.first, (unsigned long)e.second, (unsigned long)allowed);
    }
}

// ---------------------------------------------------------------- object size
static void objsize_check(Blk *b, u64 off, bool fast) {
    if (b->zero_size) off = 0; else if (off >= b->usable) off = b->usable ? off % b->usable : 0;
    Call c; u64 r = 0; int e = ERR0; u64 p = b->p + off;
    u64 usable = b->usable, addr = b->addr; bool small = b->small, zero = b->zero_size; int ser = b->serial;
    pool_of(b);
    sut(c, 0, [&] { errno = ERR0; r = fast ? h_malloc_object_size_fast((void *)p) : h_malloc_object_size((void *)p); e = errno; });
    ev(0x45, r); (void)e;
    u64 rem = usable - off;
    auto it = live.find(addr); if (it == live.end() || it->second->serial != ser) return; // freed meanwhile by another thread of the workload
    if (it->second->usable != usable) return; // resized meanwhile
    if (small && !fast && r != (zero ? 0 : rem)) violation(V_OBJSIZE, "object size at offset %lu of block #%d (usable %lu) is %lu, expected %lu", (unsigned long)off, ser, (unsigned long)usable, (unsigned long)r, (unsigned long)rem);
    else if (r < rem) violation(V_OBJSIZE, "%sobject size at offset %lu of block #%d (usable %lu) is %lu, less than the %lu bytes available", fast ? "fast " : "", (unsigned long)off, ser, (unsigned long)usable, (unsigned long)r, (unsigned long)rem);
}

// ---------------------------------------------------------------- probes: misuse in a copy of the world
static int run_probe(std::function<void()> body) { // returns outcome kind
    OUT->kind = 0; OUT->msg[0] = 0; count(C_probes);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "simulator: fork failed\n"); run_exit(3); }
    if (pid == 0) {
        R = RC[1]; *R = *RC[0]; R->status = 0;
        g_probe = true; g_misuse_running = true; g_fatal_out.clear(); for (int i = 0; i < nfib; i++) { F[i].fout.clear(); F[i].fwant.clear(); } g_wr_failed = false; G.mask = 0; g_record = false;
        cur->nopreempt = 1000; cur->allow_fatal = true; g_faults_on = S.get("f_WR_EINTR") || S.get("f_WR_SHORT") || S.get("f_WR_FAIL");
        body();
        if ((!OUT->kind || OUT->kind == 5) && !g_fatal_out.empty()) { OUT->kind = 6; snprintf(OUT->msg, sizeof OUT->msg, "a fatal error was printed but the process went on"); }
        if (!OUT->kind) OUT->kind = 3;
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    int k = OUT->kind;
    if (!WIFEXITED(st)) { if (!k) { snprintf(OUT->msg, sizeof OUT->msg, "killed by signal %d", WTERMSIG(st)); k = WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS ? 2 : 4; } }
    if (k == 1) count(C_probe_fatal); else if (k == 2) count(C_probe_segv); else if (k == 5) count(C_probe_inconclusive);
    ev(0x60, k);
    return k;
}
static const char *outcome_name(int k) { static const char *n[] = {"ended silently", "fatal error", "memory fault", "returned normally", "hung", "inconclusive", "wrong result"}; return n[k < 7 ? k : 0]; }
// release-type call number v on pointer p; returns true when the result says nothing (realloc may fail)
static bool release_call(int v, u64 p, u64 cls_sz, u64 req) {
    switch (v) {
    case 0: h_free((void *)p); return false;
    case 1: { u64 n = cls_sz > 4096 ? 40 : cls_sz * 3 + 100; return h_realloc((void *)p, n) == nullptr; }
    case 2: h_free_sized((void *)p, req); return false;
    case 3: (void)h_malloc_usable_size((void *)p); return false;
    case 4: CFG.android ? h_free((void *)p) : h_cfree((void *)p); return false;
    case 5: sut__ZdlPv((void *)p); return false;
    case 6: { u64 n = 300000 + (cls_sz & 0xfff); return h_realloc((void *)p, n) == nullptr; }
    }
    return false;
}
static void probe_release(VClass cls, int v, u64 p, u64 cls_sz, u64 req, const char *what) {
    static const char *vn[] = {"free", "realloc", "free_sized", "malloc_usable_size", "cfree", "operator delete", "realloc"};
    int k = run_probe([&] { cur->in_sut = true; cur->call_pts = G.pts; bool inc = release_call(v, p, cls_sz, req); cur->in_sut = false; if (inc) OUT->kind = 5; });
    vlog("probe %s with %s %#lx: %s %s", vn[v], what, (unsigned long)p, outcome_name(k), OUT->msg);
    if (k == 3 || k == 4) violation(cls, "%s of %s %#lx was not stopped (%s)", vn[v], what, (unsigned long)p, outcome_name(k));
    if (k == 6) violation(V_REPORT, "%s of %s %#lx: %s", vn[v], what, (unsigned long)p, OUT->msg);
}
static bool is_live_start(u64 a) { return live.count(a); }
static bool stale_ok(const StalePtr &s) {
    if (is_live_start(s.addr)) return false;
    for (int i = 0; i < nfib; i++) if (F[i].transit && F[i].transit->addr == s.addr) return false;
    return true;
}
static void do_probe(Op &op) {
    if (any_other_in_sut_alloc() || g_in_child) return;
    Rng r(hash3(g_seed, op.id, 0x960be)); int kind = op.a; int v = op.b % 7; 
    Blk *b = nullptr; auto hit = H.find(op.h); if (hit != H.end()) b = hit->second;
    if (!b && !live.empty() && kind != PR_WILD && kind != PR_META_PTR && kind != PR_FOREIGN_PTR && kind != PR_STALE && kind != PR_STALE_QUERY && kind != PR_ZERO_STALE) { size_t i = r.below(live.size()); b = std::next(live.begin(), i)->second; }
    R->probe_cnt[kind]++;
    if (v == 3 && (kind == PR_GUARD_PTR || kind == PR_UNUSED_SLAB)) {}
    auto cs_of = [&](u64 a) -> u64 { return in_slab(a) ? cls_real(cls_of_addr(a, nullptr)) : 1 << 20; };
    switch (kind) {
    case PR_STALE: case PR_ZERO_STALE: case PR_STALE_QUERY: {
        if (stale.empty()) return;
        for (int t = 0; t < 12; t++) {
            StalePtr &s = r.chance(1, 2) ? stale[stale.size() - 1 - r.below(std::min<size_t>(stale.size(), 8))] : stale[r.below(stale.size())];
            if ((kind == PR_ZERO_STALE) != s.zero) continue;
            if (!stale_ok(s)) continue;
            if (v == 1 && !s.small && r.chance(1, 2)) v = 6;
            u64 sz = s.small ? cls_real(s.cls) : s.usable;
            if (s.small && (v == 1 || v == 6) && s.zero) v = 0;
            if (kind == PR_STALE_QUERY) v = 3;
            probe_release(V_MISUSE, v, s.p, sz, s.req, "stale pointer");
            return;
        }
        return;
    }
    case PR_INTERIOR: {
        if (!b || b->zero_size || b->usable < 17) return;
        u64 off = 16 * (1 + r.below((b->usable - 1) / 16)); if (!b->small && r.chance(1, 2) && b->usable > PG) off = PG * (1 + r.below((b->usable - 1) / PG));
        if (is_live_start(b->addr + off)) return;
        probe_release(V_MISUSE, v, b->p + off, cs_of(b->addr), b->req, "interior pointer"); return;
    }
    case PR_MISALIGNED: {
        if (!b || b->usable < 16) return;
        probe_release(V_MISUSE, v, b->p + 1 + r.below(15), cs_of(b->addr), b->req, "misaligned pointer"); return;
    }
    case PR_NEIGHBOR: case PR_UNUSED_SLOT: {
        if (!b || !b->small) return;
        u64 sz = cls_real(b->cls), base; SlabRec *s = slab_of(b->addr);
        if (b->zero_size) base = pg_dn(b->addr); else { if (!s) return; base = s->lo; }
        u64 slots = slab_len(b->cls) / sz; u64 a = base + sz * r.below(slots);
        if (kind == PR_NEIGHBOR) a = b->addr + (r.chance(1, 2) ? sz : -sz);
        if (is_live_start(a)) return;
        probe_release(V_MISUSE, v, a | (b->p & ~0x00ffffffffffffffull), sz, b->req, "pointer to an unallocated slot"); return;
    }
    case PR_GUARD_PTR: {
        if (!b) return;
        u64 a;
        if (b->small) { u64 sl = slab_len(b->cls); SlabRec *s = slab_of(b->addr); if (!s) return; a = s->lo + sl + cls_real(b->cls) * r.below(CLS_SLOTS[b->cls]); SlabRec *t = slab_of(a); if (t && t->rw) return; }
        else a = r.chance(1, 2) ? b->addr - 16 * (1 + r.below((b->addr - b->glo) / 16)) : pg_up(b->addr + b->usable) + 16 * r.below((b->ghi - pg_up(b->addr + b->usable)) / 16);
        if (is_live_start(a)) return;
        probe_release(V_MISUSE, v, a, cs_of(a), b->req, "pointer into a guard region"); return;
    }
    case PR_UNUSED_SLAB: case PR_GAP_PTR: {
        if (!slab_lo) return;
        u64 asz = (slab_hi - slab_lo) / CFG.n_arena, csz = asz / CLS_SIZE.size();
        u64 c = r.below(CLS_SIZE.size()), ar = r.below(CFG.n_arena); u64 lo = slab_lo + ar * asz + c * csz, a;
        if (kind == PR_GAP_PTR) a = r.chance(1, 2) ? lo + 16 * r.below(8) : lo + csz - 16 * (1 + r.below(8));
        else if (b && b->small) { SlabRec *s = slab_of(b->addr); if (!s) return; a = s->lo + slab_len(b->cls) * (2 + r.below(3000)) + cls_real(b->cls) * r.below(CLS_SLOTS[b->cls]); u64 hi = slab_lo + b->arena * asz + (b->cls + 1) * csz; if (a >= hi) return; }
        else a = lo + (r.below(csz) & ~15ull);
        if (live.count(a)) return;
        Blk *o = nullptr; { auto it = live.upper_bound(a); if (it != live.begin()) { o = std::prev(it)->second; if (o->addr + std::max<u64>(o->usable, 16) <= a) o = nullptr; } }
        if (o) return;
        probe_release(V_MISUSE, v, a, cs_of(a), 100, "pointer into unused space"); return;
    }
    case PR_WILD: {
        u64 a; switch (r.below(4)) { case 0: a = ARENA_LO + (r.below(ARENA_HI - ARENA_LO) & ~15ull); break; case 1: a = ARENA_LO + (r.below(ARENA_HI - ARENA_LO) & ~4095ull); break; case 2: a = 16 + r.below(100000); break; default: a = r.next() & 0x7fffffffffffull; }
        if (CFG.mte == false && r.chance(1, 10)) a = r.next();
        if (in_slab(a) || is_live_start(a) || !a) return;
        probe_release(V_MISUSE, v, a, 1 << 20, 1 << 20, "wild pointer"); return;
    }
    case PR_META_PTR: {
        std::vector<u64> c; for (auto &x : vmas) if (x.second.region >= 0 && regions[x.second.region].state == RG_META) c.push_back(x.second.lo);
        if (c.empty()) return;
        u64 a = c[r.below(c.size())] + 16 * r.below(256);
        probe_release(V_MISUSE, v, a, 1 << 20, 1 << 20, "pointer to allocator state"); return;
    }
    case PR_FOREIGN_PTR: {
        u64 a = pick_foreign(r); if (!a || is_live_start(a)) return;
        if (r.chance(1, 3)) a &= ~4095ull;
        probe_release(V_MISUSE, v, a, 1 << 20, 1 << 20, "pointer to foreign memory"); return;
    }
    case PR_SIZED_MISMATCH: {
        if (!b || b->isnew) { if (!b) return; }
        u64 n; 
        if (b->zero_size) n = 1 + r.below(5000);
        else if (r.chance(1, 4)) n = 0;
        else if (b->small) { u64 sz = cls_real(b->cls); u64 prev = b->cls > 1 ? CLS_SIZE[b->cls - 1] : 0; n = r.chance(1, 2) ? sz - canary_sz() + 1 + r.below(r.chance(1, 2) ? 1 : 3000) : prev ? (prev - canary_sz()) - (r.chance(1, 2) ? 0 : r.below(prev - canary_sz())) : sz + 100; if (prev && !n) n = prev > canary_sz() ? prev - canary_sz() : 0; }
        else { u64 u = b->usable; n = r.chance(1, 2) ? u + 1 + r.below(u) : r.chance(1, 2) ? u / 2 - r.below(u / 4) : r.below(MAX_SLAB - 8); if (n < 4097 && u <= 8192) return; }
        if (b->small && !b->zero_size && n == b->req) return; if (!b->small && n < 4097 && b->usable <= 8192) return;
        { // the size must belong to another class
            if (b->small && !b->zero_size && n) { u64 a = adj(n); if (a <= MAX_SLAB && (int)size_class_of(a) == b->cls) return; }
            if (!b->small && adj(n) <= MAX_SLAB) { u64 a = std::max<u64>(adj(n), 4096); if ((CFG.large_cls ? CLS_SIZE[size_class_of(a)] : pg_up(a)) == b->usable) return; }
        }
        int form = op.c % 3; u64 p = b->p;
        int k = run_probe([&] { cur->in_sut = true; cur->call_pts = G.pts; if (form == 0) h_free_sized((void *)p, n); else if (form == 1) sut__ZdlPvm((void *)p, n); else sut__ZdaPvm((void *)p, n); cur->in_sut = false; });
        vlog("probe sized deallocation of %lu-byte block with size %lu: %s %s", (unsigned long)b->req, (unsigned long)n, outcome_name(k), OUT->msg);
        if (k == 3 || k == 4) violation(V_SIZED_MISS, "sized deallocation of a block of %lu bytes (usable %lu) with size %lu was not stopped", (unsigned long)b->req, (unsigned long)b->usable, (unsigned long)n);
        if (k == 6) violation(V_REPORT, "sized deallocation mismatch: %s", OUT->msg);
        return;
    }
    case PR_OVERFLOW: {
        if (!CFG.canary || !b || !b->small || b->zero_size || b->tmode) return;
        u64 at = b->addr + b->usable + r.below(8), len = 1 + r.below(8), x = r.next(); u64 p = b->p, sz = cls_real(b->cls), req = b->req; int mode = r.below(3);
        len = std::min(len, b->addr + sz - at);
        if (v == 2 && b->isnew) v = 0; 
        if (v == 2 && b->aligned_api) v = 0;
        u64 canary_at = b->addr + b->usable; int fz = r.below(4);
        int k = run_probe([&] {
            u64 before; memcpy(&before, (void *)canary_at, 8);
            if (fz == 0) { memset((void *)canary_at, 0, 8); }
            else if (mode == 0) { *(u8 *)at ^= (u8)(x | 1); }
            else if (mode == 1) { *(u8 *)at ^= 1u << (x & 7); }
            else for (u64 i = 0; i < len; i++) *(u8 *)(at + i) ^= (u8)(mix64(x + i) | 1);
            u64 after; memcpy(&after, (void *)canary_at, 8);
            if (before == after || (CFG.mte && !after)) { OUT->kind = 5; return; } // a zero value stands for a block from before tagging was disabled
            cur->in_sut = true; cur->call_pts = G.pts; bool inc = release_call(v, p, sz, req); cur->in_sut = false; if (inc) OUT->kind = 5;
        });
        vlog("probe overflow past block of class %lu: %s %s", (unsigned long)sz, outcome_name(k), OUT->msg);
        if (k == 3 || k == 4) violation(V_CANARY_MISS, "overflow past a %lu-byte block (class %lu) was not detected by release call %d", (unsigned long)req, (unsigned long)sz, v);
        if (k == 2 && v != 1 && v != 6) {}
        if (k == 6) violation(V_REPORT, "overflow: %s", OUT->msg);
        return;
    }
    case PR_WAF: {
        if (!CFG.waf || (CFG.mte && g_tagstate != 2)) return;
        // a freed slot that is still accessible
        std::vector<u64> c; for (auto &f : freed) { if (!f.second.purged && f.second.cls > 0 && !is_live_start(f.first)) { SlabRec *s = slab_of(f.first); if (s && s->rw) c.push_back(f.first); } }
        if (c.empty()) return;
        std::sort(c.begin(), c.end()); // prefer classes with a short quarantine
        u64 a = 0; u64 best = ~0ull; for (int t = 0; t < 6; t++) { u64 x = c[r.below(c.size())]; u64 q = q_total(freed[x].cls) * (freed[x].arena == thread_arena_seen[cur->id] ? 1 : 1000); if (q < best) { best = q; a = x; } }
        FreeInfo f = freed[a]; if (f.arena != thread_arena_seen[cur->id]) return;
        u64 sz = cls_real(f.cls), us = sz - canary_sz(); u64 off = r.chance(1, 3) ? 0 : r.chance(1, 2) ? us - 1 : r.below(us); u8 val = 1u << r.below(8);
        u64 req = us - r.below(std::min<u64>(us, 8)); if ((int)size_class_of(adj(req)) != f.cls) req = us;
        u64 iters = 3 * q_total(f.cls) + 40 * CLS_SLOTS[f.cls] + 200; if (iters > 60000) iters = 60000;
        int k = run_probe([&] {
            *(u8 *)(a + off) = val;
            cur->in_sut = true;
            std::vector<void *> held; 
            for (u64 i = 0; i < iters; i++) {
                cur->call_pts = G.pts;
                void *q = h_malloc(req); if (!q) { OUT->kind = 5; return; }
                if (untag((u64)q) == a) { if (*(u8 *)(a + off) == val) { OUT->kind = 6; snprintf(OUT->msg, sizeof OUT->msg, "slot handed out"); } else OUT->kind = 5; return; }
                // hold on to some blocks so that the free list of the slab drains, release others so that the quarantine turns over
                if (i % 3 == 0) held.push_back(q); else h_free(q);
            }
            OUT->kind = 5;
        });
        count(C_waf_armed); if (k == 1) count(C_waf_caught); if (k == 5) count(C_waf_erased);
        vlog("probe write after free at %#lx+%lu: %s %s", (unsigned long)a, (unsigned long)off, outcome_name(k), OUT->msg);
        if (k == 6) violation(V_WAF, "write after free at offset %lu of a class %lu slot was not detected when the slot was handed out again", (unsigned long)off, (unsigned long)sz);
        return;
    }
    }
}
static void preinit_probe(u64 p, int v) {
    static const char *vn[] = {"free", "realloc", "free_sized", "malloc_usable_size", "cfree", "operator delete", "realloc"};
    int k = run_probe([&] { cur->in_sut = true; cur->call_pts = G.pts; cur->allow_fatal = true; bool inc = release_call(v, p, 1 << 20, 1000); cur->in_sut = false; if (inc) OUT->kind = 5; });
    if (k == 3 || k == 4) violation(V_INIT, "%s of %#lx before initialisation was not stopped", vn[v], (unsigned long)p);
}

// ---------------------------------------------------------------- fork
static void trace_push(u64 x) { if (R->ntrace < TRACE_MAX) R->trace[R->ntrace++] = x; }
static void class_trace(Rng &r, bool all) { // what an observer sees of this thread's layout choices
    cur->nopreempt = 1000;
    std::set<std::pair<u64, int>> known; for (auto &x : slabs) if (x.second.rw) known.insert({x.first, x.second.gen});
    for (u32 c = 1; c < CLS_SIZE.size(); c++) {
        if (!all && r.chance(1, 2)) continue;
        u32 sl = CLS_SLOTS[c]; int n = sl >= 16 ? 16 : sl == 8 ? 32 : sl == 1 ? 2 : 48; // enough choices that chance cannot repeat them
        if (!CFG.slot_rand) n = sl + 1;
        std::vector<u64> can;
        for (int i = 0; i < n; i++) {
            Call cr; u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(CLS_SIZE[c] - canary_sz()); });
            if (!p) break;
            if (CFG.slot_rand || i == 0) trace_push(untag(p));
            if (CFG.canary && !CFG.mte) { SlabRec *s = slab_of(untag(p)); if (s && !known.count({s->lo, s->gen})) { known.insert({s->lo, s->gen}); u64 cv; memcpy(&cv, (void *)(untag(p) + CLS_SIZE[c] - canary_sz()), 8); can.push_back(cv); } }
        }
        trace_push(~0ull - c);
        for (u64 x : can) trace_push(x);
        trace_push(~0ull - 100 - c);
    }
    for (int i = 0; i < 10; i++) {
        Call cr; u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(4 << 20); });
        if (!p) break;
        Vma *v = vma_at(untag(p) - 1); u64 lo = 0, hi = 0; if (v) large_extent(untag(p), v->region, &lo, &hi);
        trace_push(untag(p) - lo);
    }
    trace_push(~0ull);
    cur->nopreempt = 0;
}
static void one_trace(u64 cls) { // the churned generator's next choices
    cur->nopreempt = 1000;
    for (int i = 0; i < 60; i++) {
        Call cr; u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(cls ? cls - canary_sz() : 4 << 20); });
        if (!p) break;
        u64 a = untag(p);
        if (cls) { trace_push(a); if (CFG.canary && !CFG.mte) { u64 cv; memcpy(&cv, (void *)(a + cls - canary_sz()), 8); trace_push(cv); } }
        else { Vma *v = vma_at(a - 1); u64 lo = 0, hi = 0; if (v) large_extent(a, v->region, &lo, &hi); trace_push(a - lo); }
    }
    trace_push(~0ull);
    cur->nopreempt = 0;
}
// one sample of every layout choice: pairs (key, value)
static void layout_sample() {
    cur->nopreempt = 1000; Call cr;
    u64 asz = (slab_hi - slab_lo) / CFG.n_arena, csz = asz / CLS_SIZE.size();
    for (u32 c = 1; c < CLS_SIZE.size(); c++) {
        u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(CLS_SIZE[c] - canary_sz()); }); p = untag(p);
        if (!p) continue;
        int ar; int k = cls_of_addr(p, &ar); if (k != (int)c) continue;
        SlabRec *s = slab_of(p); if (!s) continue;
        u64 first = s->lo; for (auto &x : slabs) if (x.second.cls == (int)c && x.second.arena == ar) { first = x.first; break; }
        u64 base = slab_lo + ar * asz + c * csz;
        trace_push(1000 + c); trace_push((p - s->lo) / cls_real(c));
        trace_push(2000 + c); trace_push((first - base) / PG);
    }
    for (int i = 0; i < 4; i++) {
        u64 sz = 163840, p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(sz); }); if (!p) continue;
        Vma *v = vma_at(p - 1); u64 lo = 0, hi = 0; if (v) large_extent(p, v->region, &lo, &hi);
        trace_push(3000); trace_push((p - lo) / PG);
    }
    // residence of a freed slot in a class whose slots are withheld in random order
    if (CFG.q_rand && CFG.slot_rand) {
        u64 sz = 4096 - canary_sz(); std::vector<u64> seen; std::map<u64, int> at; 
        for (int i = 0; i < 600; i++) {
            u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(sz); }); if (!p) break;
            if (at.count(p)) { trace_push(4000); trace_push(i - at[p]); }
            at[p] = i;
            sut(cr, 2, [&] { h_free((void *)p); });
        }
    }
    // long random quarantines: a freed slot must rarely come back after a few more frees
    if (CFG.q_rand && !CFG.mte) for (u32 c = 1; c < CLS_SIZE.size(); c++) {
        const u64 N = 64; u64 L = qlen(CFG.q_rand, c); if (L < 8 * N) continue;
        u64 sz = CLS_SIZE[c] - canary_sz(), back = 0; std::vector<u64> held; std::set<u64> gone;
        for (u64 i = 0; i < N; i++) { u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(sz); }); if (p) held.push_back(p); }
        for (u64 i = 0; i < held.size(); i++) { // the freed slot is the one its slab can offer next, once it leaves the array
            sut(cr, 2, [&] { h_free((void *)held[i]); }); gone.insert(held[i]);
            u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(sz); }); if (p && gone.count(p)) { back++; gone.erase(p); }
        }
        count(C_quar_checks);
        if (back > N / 2) violation(V_RANDOM, "%lu of %lu slots of class %u came back within %lu frees although they are withheld in %lu random places", (unsigned long)back, (unsigned long)N, CLS_SIZE[c], (unsigned long)N, (unsigned long)L);
    }
    // order in which freed large ranges are given back
    if (CFG.rq_rand + CFG.rq_queue <= 16) {
        std::vector<u64> ps; for (int i = 0; i < 40; i++) { u64 p = 0; sut(cr, 1, [&] { p = (u64)h_malloc(200000); }); if (p) ps.push_back(p); }
        std::vector<bool> gone(ps.size());
        for (size_t i = 0; i < ps.size(); i++) { sut(cr, 2, [&] { h_free((void *)ps[i]); }); for (size_t k = 0; k < i; k++) if (!gone[k] && !vma_at(ps[k])) { gone[k] = true; trace_push(5000); trace_push(i - k); } }
    }
    cur->nopreempt = 0;
}
static void child_work(int salt) {
    Rng r(hash3(g_seed, salt, 0xc41d));
    int busy = 0; for (int i = 0; i < nfib; i++) if (&F[i] != cur && F[i].depth) busy++;
    for (auto &kv : live) verify(kv.second, "in forked child");
    if (!mutexes_all_free()) { /* locks of other threads are re-created by the handler; a stale one shows up as a deadlock below */ }
    std::vector<Blk *> mine;
    static const u64 szs[] = {1, 24, 100, 500, 1000, 3000, 9000, 20000, 100000, 200000, 1000000};
    for (int i = 0; i < 11; i++) { Blk *b = do_alloc(i & 1 ? OP_CALLOC : OP_MALLOC, szs[i], 16, 1, 0); if (b) mine.push_back(b); }
    std::vector<Blk *> lv; for (auto &kv : live) lv.push_back(kv.second);
    for (int i = 0; i < 14 && !lv.empty(); i++) {
        size_t k = r.below(lv.size()); Blk *b = lv[k]; lv[k] = lv.back(); lv.pop_back();
        if (b->isnew) do_free(b, 3); else if (r.chance(1, 3)) do_realloc(b, r.below(r.chance(1, 4) ? 400000 : 3000), 0); else do_free(b, 0);
    }
    for (auto &kv : live) verify(kv.second, "in forked child");
    if (r.chance(1, 3)) trim_call(!busy);
    Blk *x = do_alloc(OP_MALLOC, 64, 16, 0, 0); if (x) do_free(x, 0);
    g_child_busy = busy; quiescent_structural(false);
    if (!busy && CFG.stats) stats_check("in forked child");
}
static bool do_fork_once(int which, int mode, u64 salt, bool as_parent) {
    // the calling thread forks; handlers run as fork() would run them
    Fiber *f = cur; f->in_sut = true; f->depth++; f->call_pts = G.pts; int ok = f->cur_kind; f->cur_kind = 0;
    handoff_acq(ATFORK_KEY); // the C library orders registration before fork
    atfork_prepare();
    RC[which]->status = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "simulator: fork failed\n"); run_exit(3); }
    if (pid == 0) {
        Result *p = R; R = RC[which]; *R = *p; R->status = 0; R->ntrace = 0; g_in_child = true; g_record = false; count(C_fork_children);
        bool of = g_faults_on; g_faults_on = of && S.get("child_faults");
        if (!as_parent) {
            sched_keep_only_current(); fork_child_entropy(salt);
            atfork_child();
        } else { sched_keep_only_current(); atfork_parent(); }
        f->in_sut = false; f->depth--; f->cur_kind = ok;
        if (CFG.seal) for (int k = 1; k < 16; k++) if (!(f->pkru >> k & 1)) violation(V_SEAL, "fork handler left allocator state accessible in the child");
        if (mode == 0) child_work(salt); else { Rng r(hash3(g_seed, f->cur_op, 0x7ace)); class_trace(r, mode == 1); }
        run_exit(1);
    }
    int st; waitpid(pid, &st, 0);
    static Result *copies[MAXF]; Result *&c = copies[f->id]; if (!c) c = new Result; *c = *RC[which]; // another thread may fork as soon as the locks are released
    atfork_parent();
    f->in_sut = false; f->depth--; f->cur_kind = ok;
    if (mutex_held_by(f->id)) violation(V_MUTEX, "fork handlers left %d lock(s) held", mutex_held_by(f->id));
    if (CFG.seal) for (int k = 1; k < 16; k++) if (!(f->pkru >> k & 1)) violation(V_SEAL, "fork handler left allocator state accessible");
    ev(0x65, c->hash, c->status);
    for (int i = 0; i < V_COUNT; i++) if (c->vother[i] > R->vother[i]) R->vother[i] = c->vother[i];
    if (c->status == 2) violation(mode == 0 && vclass_prop[c->cls] > 0 ? (c->cls == V_STATS || c->cls == V_SEAL || c->cls == V_ERRNO || c->cls == V_REPORT ? (VClass)c->cls : V_FORK) : (VClass)c->cls, "in forked child: %s", c->msg);
    else if (c->status != 1 || !WIFEXITED(st)) violation(V_FORK, "forked child died (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : c->status);
    R->cnt[C_fork_children]++;
    R->cnt[C_verify_bytes] = std::max(R->cnt[C_verify_bytes], c->cnt[C_verify_bytes]);
    return true;
}
static void do_fork(Op &op) {
    if (!atfork_prepare || g_in_child) return;
    count(C_forks);
    if (op.a == 0) { do_fork_once(2, 0, op.id, false); return; }
    if (any_other_in_sut_alloc()) { /* siblings are compared, the state they start from is the same anyway */ }
    static std::vector<u64> tr[3];
    int mode = op.b ? 2 : 1; u64 pos0 = R->ntrace; (void)pos0;
    for (int i = 0; i < 3; i++) {
        do_fork_once(2, mode, op.id * 3 + i, i == 2);
        tr[i].assign(RC[2]->trace, RC[2]->trace + RC[2]->ntrace);
    }
    auto grp = [](const std::vector<u64> &t) { std::map<u64, std::vector<u64>> g; std::vector<u64> c; for (u64 x : t) { if (x >= ~0ull - 200) { g[~0ull - x] = c; c.clear(); } else c.push_back(x); } return g; };
    static const char *nm[] = {"first child", "second child", "parent"};
    for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) {
        auto a = grp(tr[i]), b = grp(tr[j]);
        for (auto &k : a) {
            if (!b.count(k.first)) continue;
            auto &x = k.second; auto &y = b[k.first];
            if (k.first > 100) { // values that guard newly created slabs
                u32 c = k.first - 100;
                for (size_t q = 0; q < std::min(x.size(), y.size()); q++) if (x[q] == y[q]) { violation(V_FORK_RNG, "%s and %s draw the same guard value for class %u", nm[i], nm[j], CLS_SIZE[c]); break; }
            } else if (k.first) { // placement of blocks
                u32 c = k.first, sl = CLS_SLOTS[c];
                if (!CFG.slot_rand || sl == 1 || x.size() < (sl >= 16 ? 16u : sl == 8 ? 32u : 48u)) continue;
                if (x == y) violation(V_FORK_RNG, "%s and %s place blocks of class %u identically after fork", nm[i], nm[j], CLS_SIZE[c]);
            } else if (CFG.guard_div <= 64 && x.size() >= 10 && x == y) violation(V_FORK_RNG, "%s and %s choose identical guard sizes for large blocks after fork", nm[i], nm[j]);
        }
    }
}

// ---------------------------------------------------------------- refused requests
static void expect_refused(const char *nm, bool null, int err, int want, Call &cr) {
    if (!null) violation(V_BADERR, "%s was not refused", nm);
    else if (err != want) violation(V_BADERR, "%s failed with error %d instead of %d", nm, err, want);
    leak_check(cr, nm);
}
static void bad_call(Op &op) {
    Rng r(hash3(g_seed, op.id, 0xbad)); Call c; void *mp = (void *)0x77; int rc = 0, err = 0; u64 p = 0;
    u64 huge = r.chance(1, 2) ? ~0ull - r.below(9000) : (1ull << 63) + r.next() % (1ull << 62);
    if (r.chance(1, 4)) huge = (1ull << 47) + r.below(1ull << 60);
    switch (op.a % 12) {
    case 0: { static const u64 ba[] = {3, 24, 100, 4, 2, 1, 0, 6, 4095, 12288, (1ull << 40) + 8}; u64 a = ba[r.below(11)]; sut(c, 1, [&] { rc = h_posix_memalign(&mp, a, 1 + r.below(9000)); }); if (rc != EINVAL || mp != (void *)0x77) violation(V_BADERR, "posix_memalign with alignment %lu returned %d", (unsigned long)a, rc); leak_check(c, "posix_memalign"); break; }
    case 1: { static const u64 ba[] = {3, 24, 100, 0, 6, 4097, 12288, ~0ull}; u64 a = ba[r.below(8)]; sut(c, 1, [&] { errno = ERR0; p = (u64)(r.chance(1, 2) ? h_aligned_alloc(a, 64) : h_memalign(a, 8192)); err = errno; }); expect_refused("aligned_alloc with invalid alignment", !p, err, EINVAL, c); break; }
    case 2: { u64 n = 2 + r.below(1000), s = ~0ull / n + 1 + r.below(1000); sut(c, 1, [&] { errno = ERR0; p = (u64)h_calloc(n, s); err = errno; }); expect_refused("overflowing calloc", !p, err, ENOMEM, c); break; }
    case 3: sut(c, 1, [&] { errno = ERR0; p = (u64)h_malloc(huge); err = errno; }); expect_refused("malloc of an impossible size", !p, err, ENOMEM, c); break;
    case 4: sut(c, 1, [&] { errno = ERR0; p = (u64)h_realloc(nullptr, huge); err = errno; }); expect_refused("realloc(NULL) of an impossible size", !p, err, ENOMEM, c); break;
    case 5: if (CFG.android) break; sut(c, 1, [&] { errno = ERR0; p = (u64)h_pvalloc(huge); err = errno; }); expect_refused("pvalloc of an impossible size", !p, err, ENOMEM, c); break;
    case 6: if (CFG.android) break; sut(c, 1, [&] { errno = ERR0; p = (u64)h_valloc(huge); err = errno; }); expect_refused("valloc of an impossible size", !p, err, ENOMEM, c); break;
    case 7: { u64 a = 1ull << (4 + r.below(20)); sut(c, 1, [&] { errno = ERR0; p = (u64)h_aligned_alloc(a, huge); err = errno; }); expect_refused("aligned_alloc of an impossible size", !p, err, ENOMEM, c); break; }
    case 8: { u64 a = 1ull << (8 + r.below(20)); sut(c, 1, [&] { rc = h_posix_memalign(&mp, a, huge); }); expect_refused("posix_memalign of an impossible size", rc != 0, rc, ENOMEM, c); if (mp != (void *)0x77) violation(V_MEMPTR, "failed posix_memalign changed the caller's pointer"); break; }
    case 9: { u64 a = 1ull << (47 + r.below(16)); sut(c, 1, [&] { errno = ERR0; p = (u64)h_memalign(a, 100); err = errno; }); expect_refused("memalign with an impossible alignment", !p, err, ENOMEM, c); break; }
    case 10: { u64 n = 1ull << (47 + r.below(10)); sut(c, 1, [&] { errno = ERR0; p = (u64)h_calloc(n, 1 + r.below(60)); err = errno; }); expect_refused("calloc of an impossible size", !p, err, ENOMEM, c); break; }
    case 11: { auto it = H.find(op.h); if (it == H.end() || !it->second || Hbusy[op.h]) break; Blk *b = it->second; handoff_acq(b->serial); Hbusy[op.h] = true; Blk *n = do_realloc(b, huge, 0); if (n) handoff_rel(n->serial); if (n != b) { violation(V_BADERR, "realloc to an impossible size did not fail"); } H[op.h] = n; Hbusy[op.h] = false; break; }
    }
    ev(0x66, p, err, rc);
}

// ---------------------------------------------------------------- long loops without per-call checks
static void churn(Op &op) {
    u64 size = op.a, n = op.b; u64 keep = op.c & 0x200 ? op.c >> 16 : op.c & 0xff; std::vector<u64> ring(keep + 1, 0); int o = cur->nopreempt;
    if (op.c & 0x100) cur->nopreempt = 1000;
    bool small = adj(size) <= MAX_SLAB; int c = small ? (int)size_class_of(adj(size)) : -1;
    for (u64 i = 0; i < n; i++) {
        Call cr; u64 p = 0; int err = 0;
        pool_for(size, 16); sut(cr, 1, [&] { errno = ERR0; p = (u64)h_malloc(size); err = errno; });
        count(C_churn_iters); ev(0x12, p);
        if (!p) { null_check(size, 16, cr, err, true, "malloc in a loop"); continue; }
        u64 a = untag(p);
        // minimal bookkeeping so that the other checks stay exact
        Blk *b = register_block(p, size, 16, false, 0, false);
        if (b->small) nmd[{b->arena, b->cls}].first++; else { b->usable = CFG.large_cls ? b->usable : pg_up(size); Vma *v = vma_at(a); u64 lo = a, hi = a; if (v) { hi = v->hi; lo = v->lo; } b->usable = std::max(size, hi - a); (void)lo; large_extent(a, b->region, &b->glo, &b->ghi); }
        b->nofill = true; live_insert(b); check_tags(b);
        if (!b->zero_size && b->usable) { *(u8 *)a = 0xa5; *(u8 *)(a + size - 1) = 0x5a; }
        Blk *x = b; if (keep) { size_t k = i % keep; x = (Blk *)ring[k]; ring[k] = (u64)b; }
        if (x) {
            live_remove(x); u64 base = 0, inf = 0;
            if (x->small) { retire_small_invoke(x); nmd[{x->arena, x->cls}].second++; }
            else { large_frees_inv++; base = large_frees_inv; inf = large_inflight + large_tent; large_inflight++; retire_large(x, base, inf); }
            int fe = 0; Call c2; pool_of(x); sut(c2, 2, [&] { errno = 88; h_free((void *)x->p); fe = errno; });
            if (fe != 88) violation(V_ERRNO, "free changed errno from 88 to %d", fe);
            count(C_frees);
            if (x->small) retire_small_done(x); else large_inflight--;
            if (!x->small && (i % 64) == 0) pieces.erase(std::remove_if(pieces.begin(), pieces.end(), [](const Piece &p) { return piece_bytes(p) == 0; }), pieces.end());
            drop_blk(x);
        }
    }
    cur->nopreempt = o; (void)c;
    for (u64 k = 0; k < keep; k++) if (ring[k]) { Blk *x = (Blk *)ring[k]; x->tag = hash3(g_seed, x->serial, 1); fill(x); x->nofill = false; do_free(x, 0); }
}

// ---------------------------------------------------------------- racing deallocation of one block
static void race_free(Op &op) {
    auto it = H.find(op.h); if (it == H.end() || !it->second) return;
    Blk *b = it->second; u64 p = b->p, req = b->req; int mode = op.a % 5; u64 sz = b->small ? cls_real(b->cls) : b->usable;
    if (b->aligned_api && mode == 2) mode = 0;
    g_misuse_running = true; cur->allow_fatal = true; cur->accept_segv = true; G.mask = 0;
    Call c; if (++race_invoked == 2) count(C_race_free_runs); race_addr = untag(p);
    vlog("racing release call %d of %#lx", mode, (unsigned long)p);
    bool inc = false;
    cur->in_sut = true; cur->depth++; cur->call_pts = G.pts;
    switch (mode) {
    case 0: h_free((void *)p); break;
    case 1: inc = h_realloc((void *)p, b->small ? (sz > 4096 ? 40 : sz * 3 + 100) : (op.b & 1) ? sz * 2 + 5000 : 40) == nullptr; break;
    case 2: h_free_sized((void *)p, req); break;
    case 3: CFG.android ? h_free((void *)p) : h_cfree((void *)p); break;
    case 4: inc = h_realloc((void *)p, b->small ? 300000 : sz + sz / 2 + 10000) == nullptr; break;
    }
    cur->in_sut = false; cur->depth--;
    if (!inc) race_returned++;
}

// ---------------------------------------------------------------- bionic: allocator disabled for a while, tagging disabled for good
static void freeze_op(Op &op) {
    if (!CFG.android || g_in_child) return;
    Call c; Fiber *f = cur; f->may_hold = true;
    sut(c, 1, [&] { h_malloc_disable(); });
    int held = mutex_held_by(f->id); count(C_freezes); ev(0x90, held); vlog("malloc_disable(), %d locks held", held);
    if (g_frozen >= 0) violation(V_FREEZE, "malloc_disable returned while thread %d already has the allocator disabled", g_frozen);
    if (!g_init_done) violation(V_INIT, "malloc_disable returned before initialisation");
    g_frozen = f->id; u32 om = G.mask; G.mask |= M_FREEZE;
    for (u64 i = 0; i < op.a; i++) {
        maybe_switch_sync();
        if (i == op.a / 2 && op.b) { Blk *b = nullptr; for (auto &kv : live) if (kv.second->small && !kv.second->zero_size && hash3(g_seed, kv.second->serial, op.id) % 3 == 0) { b = kv.second; break; }
            if (b) { u64 p = b->p, u = 0, us = b->usable; sut(c, 0, [&] { u = h_malloc_object_size_fast((void *)p); }); if (u < us) violation(V_OBJSIZE, "fast object size of block #%d is %lu, less than its usable size %lu", b->serial, (unsigned long)u, (unsigned long)us); } }
    }
    g_frozen = -1; G.mask = om; f->may_hold = false;
    sut(c, 0, [&] { h_malloc_enable(); });
    ev(0x91); vlog("malloc_enable()");
}
static void notag_op() {
    if (!CFG.android) return;
    Call c; Fiber *f = cur; bool oa = f->allow_fatal;
    if (!g_tagstate) g_tagstate = 1;
    f->allow_fatal = true; // the process cannot continue when its own data cannot be made writable
    sut(c, 0, [&] { h_malloc_disable_memory_tagging(); });
    f->allow_fatal = oa; g_tagstate = 2; count(C_tag_disables); ev(0x92); vlog("malloc_disable_memory_tagging()");
}

// ---------------------------------------------------------------- one operation
static Blk *get(int h) { auto it = H.find(h); Blk *b = it == H.end() || Hbusy[h] ? nullptr : it->second; if (b) handoff_acq(b->serial); return b; }
static void exec(Op &op) {
    R->op_cnt[op.kind]++;
    switch (op.kind) {
    case OP_MALLOC: case OP_CALLOC: case OP_ALIGNED: case OP_POSIX_MEMALIGN: case OP_MEMALIGN: case OP_VALLOC: case OP_PVALLOC: case OP_REALLOC_NULL: case OP_NEW: {
        if (H[op.h] || Hbusy[op.h]) return;
        Hbusy[op.h] = true; u64 nm = 1, sz = op.a; if (op.kind == OP_CALLOC && op.b > 1) nm = op.b;
        Blk *b = do_alloc(op.kind, sz, op.b, nm, op.c); H[op.h] = b; Hbusy[op.h] = false; break;
    }
    case OP_FREE: case OP_FREE_SIZED: case OP_CFREE: case OP_DELETE: {
        Blk *b = get(op.h); if (!b) return;
        H[op.h] = nullptr;
        int k = op.kind == OP_CFREE ? 1 : op.kind == OP_FREE_SIZED ? 2 : 0;
        if (b->isnew) k = (op.a & 1) ? 4 : 3; else if (k == 2 && b->aligned_api) k = 0; else if (op.kind == OP_DELETE) k = 0;
        do_free(b, k); break;
    }
    case OP_REALLOC: {
        Blk *b = get(op.h); if (!b) return;
        if (b->isnew) return;
        Hbusy[op.h] = true; Blk *n = do_realloc(b, op.a, op.c); if (n) handoff_rel(n->serial); H[op.h] = n; Hbusy[op.h] = false; break;
    }
    case OP_USABLE: {
        Blk *b = get(op.h); if (!b) return;
        Hbusy[op.h] = true; Call c; u64 u = 0; pool_of(b); sut(c, 0, [&] { u = h_malloc_usable_size((void *)b->p); }); ev(0x41, u);
        if (u != b->usable) violation(V_USABLE, "usable size of block #%d is %lu, was %lu", b->serial, (unsigned long)u, (unsigned long)b->usable);
        Hbusy[op.h] = false; break;
    }
    case OP_OBJSIZE: case OP_OBJSIZE_FAST: {
        Blk *b = get(op.h); if (!b) return;
        Hbusy[op.h] = true; objsize_check(b, op.b ? hash3(g_seed, op.id, 4) % std::max<u64>(b->usable, 1) : op.a, op.kind == OP_OBJSIZE_FAST); Hbusy[op.h] = false; break;
    }
    case OP_TRIM: trim_call(false); break;
    case OP_MALLINFO: { if (CFG.android) { droid_info(); break; } Call c; struct mallinfo2 m; struct mallinfo m1; sut(c, 0, [&] { m = h_mallinfo2(); }); sut(c, 0, [&] { m1 = h_mallinfo(); }); ev(0x42, m.hblkhd, m.uordblks); (void)m1; break; }
    case OP_MALLOC_INFO: malloc_info_call(op.a & 1); if ((op.a & 2) && !CFG.android) { Call c; int rc = 0, e = 0; sut(c, 0, [&] { errno = ERR0; rc = h_malloc_info(1, stderr); e = errno; }); if (rc != -1 || e != EINVAL) violation(V_BADERR, "malloc_info with options returned %d errno %d", rc, e); } break;
    case OP_NULLOPS: {
        Call c; u64 u = 0; int e = 0;
        sut(c, 2, [&] { errno = 77; h_free(nullptr); e = errno; }); if (e != 77) violation(V_ERRNO, "free(NULL) changed errno");
        sut(c, 2, [&] { h_free_sized(nullptr, op.a); }); if (!CFG.android) sut(c, 2, [&] { h_cfree(nullptr); }); sut(c, 2, [&] { sut__ZdlPv(nullptr); }); sut(c, 2, [&] { sut__ZdlPvm(nullptr, 10); });
        sut(c, 0, [&] { u = h_malloc_usable_size(nullptr); }); if (u) violation(V_USABLE, "usable size of NULL is %lu", (unsigned long)u);
        sut(c, 0, [&] { u = h_malloc_object_size(nullptr); }); if (u) violation(V_OBJSIZE, "object size of NULL is %lu", (unsigned long)u);
        sut(c, 0, [&] { u = h_malloc_object_size_fast(nullptr); }); if (u) violation(V_OBJSIZE, "fast object size of NULL is %lu", (unsigned long)u);
        break;
    }
    case OP_VERIFY: { Blk *b = get(op.h); if (b) { verify(b, "verify"); check_guards(b, "verify"); } break; }
    case OP_CHURN: churn(op); break;
    case OP_BADCALL: bad_call(op); break;
    case OP_PROBE: do_probe(op); break;
    case OP_FORK: do_fork(op); break;
    case OP_RACE_FREE: race_free(op); break;
    case OP_TRACE: { Rng r(hash3(g_seed, op.id, 5)); if (op.a == 2) layout_sample(); else if (op.a == 3) one_trace(S.get("tracecls")); else class_trace(r, op.a); break; }
    case OP_RNG: rng_op(op); break;
    case OP_BURST: { // many blocks of one size at consecutive handles
        for (u64 i = 0; i < op.b; i++) { int h = op.h + i; if (H[h] || Hbusy[h]) continue; Hbusy[h] = true; H[h] = do_alloc(OP_MALLOC, op.a, 16, 0, 0); Hbusy[h] = false; }
        break;
    }
    case OP_SWEEP: { // a share of the blocks of a burst is freed, in order, in reverse order or in random order
        std::vector<int> hs; Rng r(hash3(g_seed, op.id, 7)); for (u64 i = 0; i < op.b; i++) if (r.chance(op.a, 100)) hs.push_back(op.h + i);
        if (op.c == 1) std::reverse(hs.begin(), hs.end()); else if (op.c == 2) for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[r.below(i)]);
        for (int h : hs) { Blk *b = get(h); if (!b) continue; H[h] = nullptr; do_free(b, 0); }
        break;
    }
    case OP_DISABLE: freeze_op(op); break;
    case OP_NOTAG: notag_op(); break;
    case OP_MISC: {
        Call c; int rc = 0, e = 0; void *p = &c; struct mallinfo m; memset(&m, 0, sizeof m);
        sut(c, 0, [&] { rc = h_mallopt(1, 2); }); if (rc != 0) violation(V_BADERR, "mallopt returned %d", rc);
        sut(c, 0, [&] { h_malloc_stats(); });
        if (CFG.android) break;
        sut(c, 0, [&] { errno = ERR0; p = h_malloc_get_state(); e = errno; }); if (p || e != ENOSYS) violation(V_BADERR, "malloc_get_state did not fail with ENOSYS");
        sut(c, 0, [&] { rc = h_malloc_set_state(nullptr); }); if (rc != -2) violation(V_BADERR, "malloc_set_state returned %d", rc);
        break;
    }
    }
}

// ---------------------------------------------------------------- threads of the simulated program
static std::vector<std::vector<Op>> by_tp[16]; // [phase][tid]
static int n_phases;
static void worker(int id) {
    sched_park_until_released();
    for (int ph = 0; ph < n_phases; ph++) {
        for (Op &op : by_tp[ph][id]) { sched_op_begin(op.id); exec(op); }
        sched_park_until_released();
    }
}
void quiescent(bool final_phase) {
    bool of = g_faults_on; g_faults_on = false;
    quiescent_structural(final_phase);
    if (CFG.stats || g_init_done) stats_check("at rest");
    if (S.get("trimtest") && g_init_done && (final_phase || S.get("trimtest") > 1)) {
        if (S.get("trimtest") > 2 && !in_recovery) { // first with the faults of this run
            g_faults_on = true; trim_call(true); g_faults_on = false;
            for (auto &kv : live) verify(kv.second, "after a trim with refusals");
            if (CFG.stats) stats_check("after a trim with refusals");
        }
        trim_call(true);
        for (auto &kv : live) verify(kv.second, "after trim");
        if (CFG.stats) stats_check("after trim");
        quiescent_structural(final_phase);
    }
    g_faults_on = of;
}
static void preinit_calls() {
    Call c; u64 u; int rc = 0; char buf[64]; 
    Op o = {}; o.kind = OP_NULLOPS; o.id = 900001; exec(o);
    o.kind = OP_MISC; exec(o);
    sut(c, 0, [&] { rc = h_malloc_trim(0); }); if (rc) violation(V_INIT, "malloc_trim before initialisation returned %d", rc);
    sut(c, 0, [&] { u = h_malloc_object_size(buf); }); if (u != ~0ull) violation(V_OBJSIZE, "object size before initialisation is %lu, less than may be available", (unsigned long)u);
    stats_check("before initialisation");
    malloc_info_call(false);
    if (!CFG.android) sut(c, 0, [&] { rc = h_malloc_info(3, stderr); });
    else { sut(c, 0, [&] { rc = h_mallopt(-101, 0); }); if (rc != 1) violation(V_INIT, "mallopt(M_PURGE) before initialisation returned %d", rc); }
    preinit_probe((u64)buf, 0); preinit_probe((u64)buf & ~4095ull, 3); preinit_probe((u64)buf & ~15ull, 2); preinit_probe((u64)buf & ~15ull, 1); preinit_probe(0x100000001000ull, 0);
    if (slab_lo || !regions.empty()) { if (g_slab_reservations) violation(V_INIT, "a call on NULL initialised the allocator"); }
}
static void mask_setup() { G.mask = (S.get("race", 1) ? M_RACE : 0) | (CFG.seal ? M_SEAL : 0); }
void coordinator(int) {
    sched_op_begin(800000);
    g_sched_off = false; in_recovery = false; race_returned = race_invoked = 0;
    mask_setup();
    bool init_faults = S.get("init_faults");
    if (S.get("notag") && CFG.android) notag_op();
    if (S.get("preinit")) preinit_calls();
    sched_op_begin(800001);
    if (!S.get("noctor")) {
        g_faults_on = init_faults;
        Call c;
        if (__start_sutinit) for (ctor_t *p = __start_sutinit; p < __stop_sutinit; p++) if (*p) sut(c, 1, [&] { (*p)(); });
        for (auto &s : slabs) { ClsState &c = cs(s.second.arena, s.second.cls); c.frees_inv += 2; c.maxlive = std::max<u64>(c.maxlive, 2); } // calls made by the constructor itself
        if (!g_init_done) { Blk *b = do_alloc(OP_MALLOC, 24, 16, 0, 0); if (b) do_free(b, 0); }
        g_faults_on = false;
        if (!g_init_done && !init_faults) violation(V_INIT, "the allocator is not initialised after an allocation");
        sched_op_begin(800002);
        stats_baseline();
    }
    sched_wait_all_parked();
    for (int ph = 0; ph < n_phases; ph++) {
        bool rec = S.get("recovery") && ph == n_phases - 1;
        in_recovery = rec;
        g_faults_on = !rec && !(ph == 0 && S.get("clean0"));
        if (S.get("noctor") && ph == 0 && !init_faults) g_faults_on = false;
        sched_release_workers();
        sched_wait_all_parked();
        g_faults_on = false;
        sched_op_begin(800010 + ph);
        if (g_misuse_running) break;
        if (ph == 0 && S.get("noctor") && g_init_done) { // first calls raced: exactly one initialisation
            if (g_slab_reservations != 1) violation(V_INIT, "%d reservations of the small-allocation area", g_slab_reservations);
            if (g_atfork_calls != 1) violation(V_INIT, "fork handlers registered %d times", g_atfork_calls);
            count(C_init_races);
        }
        quiescent(ph == n_phases - 1);
    }
    if (race_invoked > 1) {
        if (race_returned > 1 && !race_reused) violation(V_RACE_FREE, "%d threads released the same block and all calls returned normally", race_returned);
    } else if (!g_misuse_running) {
        kernel_final_check();
        if (S.get("freeall")) { // give everything back: nothing but quarantine may remain
            g_sched_off = true;
            sched_op_begin(800100);
            std::vector<Blk *> v; for (auto &kv : live) v.push_back(kv.second);
            for (Blk *b : v) do_free(b, b->isnew ? 3 : 0);
            sched_op_begin(800101);
            quiescent(true);
        }
    }
    run_exit(1);
}
void ops_init() {
    kx_rate = S.get("kx"); g_frozen = -1; g_tagstate = 0;
    H.clear(); Hbusy.clear(); n_phases = 1;
    for (Op &o : S.ops) n_phases = std::max(n_phases, (int)o.phase + 1);
    n_phases = std::max<int>(n_phases, S.get("phases", 1)); if (n_phases > 15) n_phases = 15;
    for (int p = 0; p < n_phases; p++) by_tp[p].assign(MAXF, {});
    for (Op &o : S.ops) if (o.phase < n_phases && o.tid < MAXF) by_tp[o.phase][o.tid].push_back(o);
    int nt = S.get("threads", 1); if (nt > MAXF - 1) nt = MAXF - 1;
    fiber_create(0, coordinator);
    for (int i = 1; i <= nt; i++) fiber_create(i, worker);
}
