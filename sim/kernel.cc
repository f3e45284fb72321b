// Simulated kernel: address space, entropy, process output, protection keys, fork handlers.
#include "sim.h"
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <sys/uio.h>
#include <cstdarg>
#include <csignal>
#include <new>

std::map<u64, Vma> vmas; std::vector<Region> regions;
u64 slab_lo, slab_hi; bool g_inited, g_init_done, g_faults_on, g_misuse_running; u64 g_seq, g_seed, g_init_entropy; int g_init_fiber = -1, g_slab_reservations;
bool init_in_progress() { return !g_init_done && (!slab_lo || (cur && cur->id == g_init_fiber)); }
u64 g_entropy_pos, g_entropy_seed, g_entropy_flip = ~0ull;
void (*atfork_prepare)(); void (*atfork_parent)(); void (*atfork_child)(); int g_atfork_calls;
std::string g_fatal_out; bool g_wr_failed; u64 foreign_count;
static bool flip_after_init; static int place_policy; static u64 last_unmapped_lo, last_unmapped_hi;
static u64 vma_limit, commit_limit, commit_now; static u64 foreign_rate; static int pkey_next; static std::set<int> pkeys;
static u64 rate[F_COUNT];
static u64 kerr_mask; // which kinds of call may fail with an odd errno (0: all)
struct Foreign { u64 lo, hi, tag; }; static std::vector<Foreign> foreigns;
static std::unordered_map<i64, std::vector<FaultRec>> ex_faults;
extern "C" char __start_sutbss[], __stop_sutbss[], __start_sutdata[], __stop_sutdata[];
void maybe_switch_sync(); void access_hook(u64 a, u64 n, bool w);
static std::unordered_map<u64, u8 *> mte_pages;

static u64 expect_slab_len() {
    u64 ncls = CFG.ext ? 49 : 37;
    return CFG.class_region * 2 * ncls * CFG.n_arena;
}
void kernel_init() {
    vmas.clear(); regions.clear(); slab_lo = slab_hi = 0; g_inited = g_init_done = false; g_init_fiber = -1; g_slab_reservations = 0; g_seed = S.get("seed"); g_faults_on = false; g_misuse_running = false; g_seq = 0;
    place_policy = S.get("place", 0); foreign_rate = S.get("foreign", 0);
    vma_limit = S.get("vma_limit", 0); commit_limit = S.get("commit_limit", 0); commit_now = 0;
    g_entropy_seed = S.get("entropy", 1); g_entropy_pos = 0; g_entropy_flip = (u64)S.get("flip", -1); flip_after_init = S.get("flipinit");
    atfork_prepare = atfork_parent = atfork_child = nullptr; g_atfork_calls = 0; g_fatal_out.clear(); g_wr_failed = false; foreign_count = 0;
    pkey_next = 1; pkeys.clear(); foreigns.clear(); mte_pages.clear();
    for (int i = 0; i < F_COUNT; i++) { std::string k = std::string("f_") + fkind_name[i]; rate[i] = S.get(k.c_str(), 0); }
    kerr_mask = S.get("kerr_mask", 0);
    ex_faults.clear();
    if (S.is_explicit) for (auto &f : S.faults) ex_faults[((i64)f.op << 20) + f.idx].push_back(f);
    auto addg = [](char *a, char *b) {
        u64 lo = pg_dn((u64)a), hi = pg_up((u64)b);
        if (lo >= hi) return;
        if (!vmas.empty()) { auto &l = vmas.rbegin()->second; if (l.hi > lo) lo = l.hi; }
        if (lo < hi) vmas[lo] = Vma{lo, hi, PROT_READ | PROT_WRITE, 0, OWN_GLOBAL, -1, false};
    };
    char *r[4] = {__start_sutbss, __stop_sutbss, __start_sutdata, __stop_sutdata};
    if (r[0] <= r[2]) { addg(r[0], r[1]); addg(r[2], r[3]); } else { addg(r[2], r[3]); addg(r[0], r[1]); }
    if (CFG.stats || true) { }
}
bool is_sut_global(u64 a) { return (a >= (u64)__start_sutbss && a < (u64)__stop_sutbss) || (a >= (u64)__start_sutdata && a < (u64)__stop_sutdata); }

// ---------------------------------------------------------------- VMA model
Vma *vma_at(u64 a) {
    auto it = vmas.upper_bound(a);
    if (it == vmas.begin()) return nullptr;
    --it;
    return a < it->second.hi ? &it->second : nullptr;
}
bool range_all(u64 lo, u64 hi, int owner, int pm, int pv) {
    if (lo >= hi) return true;
    while (lo < hi) { Vma *v = vma_at(lo); if (!v || (owner && v->owner != owner) || (v->prot & pm) != pv) return false; lo = v->hi; }
    return true;
}
bool range_unowned_by_sut(u64 lo, u64 hi) {
    auto it = vmas.upper_bound(lo); if (it != vmas.begin()) --it;
    for (; it != vmas.end() && it->second.lo < hi; ++it) if (it->second.hi > lo && it->second.owner == OWN_SUT) return false;
    return true;
}
int range_prot_any(u64 lo, u64 hi) {
    int p = 0; auto it = vmas.upper_bound(lo); if (it != vmas.begin()) --it;
    for (; it != vmas.end() && it->second.lo < hi; ++it) if (it->second.hi > lo && it->second.owner == OWN_SUT) p |= it->second.prot;
    return p;
}
static void split_at(u64 a) {
    Vma *v = vma_at(a);
    if (!v || v->lo == a) return;
    Vma n = *v; n.lo = a; v->hi = a; vmas[a] = n;
}
static bool same(const Vma &a, const Vma &b) { return a.hi == b.lo && a.prot == b.prot && a.pkey == b.pkey && a.owner == b.owner && a.region == b.region && a.mte == b.mte; }
static void merge_around(u64 lo, u64 hi) {
    auto it = vmas.lower_bound(lo); if (it != vmas.begin()) --it;
    while (it != vmas.end() && it->second.lo <= hi) {
        auto nx = std::next(it); if (nx == vmas.end()) break;
        if (same(it->second, nx->second)) { it->second.hi = nx->second.hi; vmas.erase(nx); } else it = nx;
    }
}
static void commit_acct(u64 lo, u64 hi, int sign) {
    auto it = vmas.lower_bound(lo);
    for (; it != vmas.end() && it->second.lo < hi; ++it) if (it->second.prot & PROT_WRITE) commit_now += sign * (i64)(it->second.hi - it->second.lo);
}
static void erase_range(u64 lo, u64 hi) {
    split_at(lo); split_at(hi);
    commit_acct(lo, hi, -1);
    auto it = vmas.lower_bound(lo);
    while (it != vmas.end() && it->second.lo < hi) { if (it->second.region >= 0) regions[it->second.region].bytes -= it->second.hi - it->second.lo; it = vmas.erase(it); }
}
static void insert_vma(Vma v) {
    vmas[v.lo] = v; if (v.region >= 0) regions[v.region].bytes += v.hi - v.lo;
    if (v.prot & PROT_WRITE && v.owner == OWN_SUT) commit_now += v.hi - v.lo;
    merge_around(v.lo, v.hi);
}
static u64 nvmas() { return vmas.size(); }
static bool is_free(u64 lo, u64 hi) {
    if (lo < ARENA_LO || hi > ARENA_HI || lo >= hi) return false;
    auto it = vmas.upper_bound(lo); if (it != vmas.begin()) { auto p = std::prev(it); if (p->second.hi > lo) return false; }
    return it == vmas.end() || it->second.lo >= hi;
}
static u64 place_topdown(u64 len) {
    u64 top = ARENA_HI - 0x10000000;
    for (auto it = vmas.rbegin(); it != vmas.rend(); ++it) {
        if (it->second.hi <= ARENA_LO) break;
        if (it->second.lo >= top) continue;
        if (it->second.hi + len <= top) return top - len;
        top = std::min(top, it->second.lo);
    }
    return top >= ARENA_LO + len && top - len >= ARENA_LO ? top - len : 0;
}
static u64 place_bottomup(u64 len) {
    u64 at = ARENA_LO + 0x10000000;
    for (auto &kv : vmas) { if (kv.second.hi <= at) continue; if (kv.second.lo >= at + len) return at; at = kv.second.hi; }
    return at + len <= ARENA_HI ? at : 0;
}
static u64 place(u64 len, u64 h) {
    if (len > ARENA_HI - ARENA_LO - (1ull << 33)) return 0;
    int pol = place_policy; Rng r(h);
    if (pol == 9) { static const int mix[] = {0, 0, 1, 2, 3, 4, 4, 3}; pol = mix[r.below(8)]; }
    if (pol == 1) { u64 a = place_bottomup(len); if (a) return a; }
    if (pol == 2) for (int i = 0; i < 30; i++) { u64 a = pg_dn(ARENA_LO + r.below(ARENA_HI - ARENA_LO - len)); if (is_free(a, a + len)) return a; }
    if (pol == 3) {
        std::vector<u64> c; // next to an existing mapping
        for (auto &kv : vmas) if (kv.second.owner != OWN_GLOBAL && kv.second.lo >= ARENA_LO) { if (is_free(kv.second.hi, kv.second.hi + len)) c.push_back(kv.second.hi); if (kv.second.lo >= ARENA_LO + len && is_free(kv.second.lo - len, kv.second.lo)) c.push_back(kv.second.lo - len); if (c.size() > 64) break; }
        if (!c.empty()) return c[r.below(c.size())];
    }
    if (pol == 4 && last_unmapped_hi > last_unmapped_lo) {
        if (is_free(last_unmapped_lo, last_unmapped_lo + len)) return last_unmapped_lo;
        if (last_unmapped_hi >= ARENA_LO + len && is_free(last_unmapped_hi - len, last_unmapped_hi)) return last_unmapped_hi - len;
    }
    u64 a = place_topdown(len); if (a) return a;
    return place_bottomup(len);
}
static void real_map(u64 lo, u64 hi, int prot) {
    void *m = ::mmap((void *)lo, hi - lo, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "simulator: real mmap of %#lx failed: %s\n", (unsigned long)(hi - lo), strerror(errno)); run_exit(3); }
}

// ---------------------------------------------------------------- faults
static const int odd_errno[] = {EINVAL, EACCES, EAGAIN, EPERM, EBADF, EFAULT, ENFILE, EEXIST};
bool fault_decide(FKind k, u64 rt, u64 *val) {
    if (S.is_explicit && !g_in_child && !g_probe) {
        auto it = ex_faults.find(((i64)cur->cur_op << 20) + cur->sysidx);
        if (it == ex_faults.end()) return false;
        for (auto &f : it->second) if (f.kind == k) { if (val) *val = f.val; R->fault_cnt[k]++; if (g_record) g_rec_faults.push_back(f); ev(0xfa, k, f.val); return true; }
        return false;
    }
    if (!rt || !g_faults_on) return false;
    u64 h = hash3(g_seed, ((u64)(u32)cur->cur_op << 32) ^ (u64)cur->sysidx, 0xfa0 + k);
    if (h % 10000 >= rt) return false;
    u64 v = mix64(h); if (val) *val = v;
    if (g_record) g_rec_faults.push_back({cur->cur_op, cur->sysidx, k, v});
    R->fault_cnt[k]++; ev(0xfa, k, v);
    return true;
}
static void sysent(const char *nm, u64 a, u64 b, u64 c) {
    count(C_syscalls); cur->sysidx++; if (*nm == 'm') cur->mem_requests++;
    if (cur->in_sut) maybe_switch_sync();
    (void)nm; (void)a; (void)b; (void)c;
}
// memory faults common to all memory calls: returns errno or 0
static int memfault1(FKind k, const char *nm, bool splits, u64 rw_add);
static int memfault(FKind k, const char *nm, bool splits, u64 rw_add) {
    int e = memfault1(k, nm, splits, rw_add);
    if (e && init_in_progress() && k != F_MUNMAP_ENOMEM && k != F_MADVISE_ENOMEM) { cur->expect_fatal = true; cur->expect_cls = V_INIT; }
    return e;
}
static int memfault1(FKind k, const char *nm, bool splits, u64 rw_add) {
    if (cur->nopreempt > 100 || cur->relief) return 0;
    u64 v;
    if ((!kerr_mask || S.is_explicit || kerr_mask >> k & 1) && fault_decide(F_KERR, rate[F_KERR], &v)) { int e = odd_errno[v % (sizeof odd_errno / sizeof *odd_errno)]; cur->kerr_injected = true; cur->expect_fatal = true; cur->expect_cls = V_KERR; vlog("fault: %s errno %d", nm, e); return e; }
    if (cur->force_enomem && k != F_MADVISE_ENOMEM) { cur->faults_call++; if (k == F_MUNMAP_ENOMEM) cur->faults_map++; R->fault_cnt[k]++; vlog("forced: %s ENOMEM", nm); return ENOMEM; }
    if (fault_decide(k, rate[k])) { cur->faults_call++; if (k == F_MUNMAP_ENOMEM) cur->faults_map++; if (k == F_MADVISE_ENOMEM) cur->faults_adv++; vlog("fault: %s ENOMEM", nm); return ENOMEM; }
    if (g_faults_on && splits && vma_limit && nvmas() + 2 > vma_limit) { R->fault_cnt[F_VMA_LIMIT]++; cur->faults_call++; if (k == F_MUNMAP_ENOMEM) cur->faults_map++; ev(0xfb, 1); vlog("vma limit: %s ENOMEM", nm); return ENOMEM; }
    if (g_faults_on && commit_limit && rw_add && commit_now + rw_add > commit_limit) { R->fault_cnt[F_COMMIT_LIMIT]++; cur->faults_call++; ev(0xfb, 2); vlog("commit limit: %s ENOMEM", nm); return ENOMEM; }
    return 0;
}
static bool own_check(const char *nm, u64 lo, u64 hi) {
    if (g_misuse_running) return true;
    u64 a = lo;
    while (a < hi) {
        Vma *v = vma_at(a);
        if (!v) { violation(V_FOREIGN, "%s of [%#lx,%#lx): the range contains address space the allocator does not own (hole at %#lx)", nm, (unsigned long)lo, (unsigned long)hi, (unsigned long)a); return false; }
        if (v->owner == OWN_FOREIGN) { violation(V_FOREIGN, "%s of [%#lx,%#lx) hits a mapping made by somebody else at %#lx", nm, (unsigned long)lo, (unsigned long)hi, (unsigned long)v->lo); return false; }
        a = v->hi;
    }
    return true;
}
static void place_foreign(u64 lo, u64 hi) {
    if (!foreign_rate || !g_inited || g_misuse_running || foreigns.size() > 400) return;
    u64 h = hash3(g_seed, ((u64)(u32)cur->cur_op << 32) ^ (u64)cur->sysidx, 0xf04e);
    if (h % 100 >= foreign_rate) return;
    Rng r(h); u64 n = (hi - lo) / PG; u64 take = std::min<u64>(n, 1 + r.below(8)); u64 at;
    switch (r.below(3)) { case 0: at = 0; break; case 1: at = n - take; break; default: at = r.below(n - take + 1); }
    if (r.chance(1, 3) && n <= 64) { at = 0; take = n; }
    u64 flo = lo + at * PG, fhi = flo + take * PG;
    if (!is_free(flo, fhi)) return;
    real_map(flo, fhi, PROT_READ | PROT_WRITE);
    u64 tag = r.next() | 1;
    for (u64 a = flo; a < fhi; a += PG) { *(u64 *)a = tag ^ a; *(u64 *)(a + PG - 8) = tag + a; }
    vmas[flo] = Vma{flo, fhi, PROT_READ | PROT_WRITE, 0, OWN_FOREIGN, -1, false};
    foreigns.push_back({flo, fhi, tag}); foreign_count++; count(C_foreign_placed); ev(0xf0, flo, fhi);
    vlog("foreign mapping placed [%#lx,%#lx)", (unsigned long)flo, (unsigned long)fhi);
}
u64 pick_foreign(Rng &r) { if (foreigns.empty()) return 0; auto &f = foreigns[r.below(foreigns.size())]; return f.lo + (r.chance(1, 2) ? 0 : r.below(f.hi - f.lo) & ~15ull); }
void kernel_final_check() {
    for (auto &f : foreigns) {
        if (!range_all(f.lo, f.hi, OWN_FOREIGN, PROT_READ | PROT_WRITE, PROT_READ | PROT_WRITE)) { violation(V_FOREIGN, "mapping made by somebody else at [%#lx,%#lx) was changed", (unsigned long)f.lo, (unsigned long)f.hi); continue; }
        for (u64 a = f.lo; a < f.hi; a += PG) if (*(u64 *)a != (f.tag ^ a) || *(u64 *)(a + PG - 8) != f.tag + a) { violation(V_FOREIGN, "contents of a mapping made by somebody else at %#lx were changed", (unsigned long)a); break; }
    }
}
static void unmapped(u64 lo, u64 hi) { last_unmapped_lo = lo; last_unmapped_hi = hi; place_foreign(lo, hi); }

// ---------------------------------------------------------------- documented system calls
static void sysrule(bool ok, const char *fmt, u64 a = 0, u64 b = 0) {
    if (g_misuse_running) return;
    count(C_sysrule_checks);
    if (!ok) { char t[200]; snprintf(t, sizeof t, fmt, (unsigned long)a, (unsigned long)b); violation(V_SYSCALL, "%s is not among the documented system calls", t); }
}
static const int MTEP = 0x20;
extern "C" {
void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    u64 a = untag((u64)addr); bool fixed = flags & MAP_FIXED;
    sysent("mmap", a, len, prot);
    sysrule((prot & ~(CFG.mte ? MTEP : 0)) == PROT_NONE && flags == (MAP_ANONYMOUS | MAP_PRIVATE | (fixed ? MAP_FIXED : 0)) && fd == -1 && !off && (fixed || !addr), "mmap with protection %#lx and flags %#lx", prot, flags);
    bool mte = CFG.mte && (prot & 0x20); prot &= ~0x20;
    if (!(flags & MAP_ANONYMOUS) || fd != -1) { (void)off; return ::mmap(addr, len, prot, flags, fd, off); }
    u64 L = pg_up(len);
    int e = memfault(fixed ? F_MFIXED_ENOMEM : F_MMAP_ENOMEM, fixed ? "mmap fixed" : "mmap", fixed, (prot & PROT_WRITE) ? L : 0);
    if (e) { ev(0xa0, a, L, e); if (fixed) on_fixed_refused(a, a + L); errno = e; return MAP_FAILED; }
    if (!len) { errno = EINVAL; return MAP_FAILED; }
    if (!L) { R->fault_cnt[F_NATURAL]++; cur->faults_call++; errno = ENOMEM; return MAP_FAILED; }
    if (!fixed) {
        u64 at = place(L, hash3(g_seed, ((u64)(u32)cur->cur_op << 32) ^ (u64)cur->sysidx, 0x91ace));
        if (!at) { R->fault_cnt[F_NATURAL]++; cur->faults_call++; ev(0xa1, L); vlog("mmap(%#lx): does not fit", (unsigned long)len); errno = ENOMEM; return MAP_FAILED; }
        real_map(at, at + L, prot);
        int id = regions.size();
        bool ini = init_in_progress();
        regions.push_back(Region{id, at, at + L, 0, ini ? RG_META : RG_FRESH, ++g_seq, cur->cur_op, cur->id, nullptr});
        insert_vma(Vma{at, at + L, prot, 0, OWN_SUT, id, mte});
        if (L == expect_slab_len()) {
            if (++g_slab_reservations > 1) violation(V_INIT, "the small-allocation area is reserved a second time");
            else { slab_lo = at; slab_hi = at + L; regions[id].state = RG_SLAB; g_init_fiber = cur->id; }
        }
        if (cur->regions_created) cur->regions_created->push_back(id);
        ev(0xa2, at, L, prot); vlog("mmap(%#lx) = %#lx", (unsigned long)L, (unsigned long)at);
        return (void *)at;
    }
    if (a & (PG - 1)) { errno = EINVAL; return MAP_FAILED; }
    vlog("mmap fixed [%#lx,%#lx)", (unsigned long)a, (unsigned long)(a + L));
    if (!own_check("fixed remap", a, a + L)) { errno = EINVAL; return MAP_FAILED; }
    on_fixed(a, a + L);
    Vma *v = vma_at(a); int reg = v ? v->region : -1;
    split_at(a); split_at(a + L);
    // keep region ids piecewise
    std::vector<Vma> old; for (auto it = vmas.lower_bound(a); it != vmas.end() && it->second.lo < a + L; ++it) old.push_back(it->second);
    erase_range(a, a + L);
    real_map(a, a + L, prot);
    if (old.empty()) insert_vma(Vma{a, a + L, prot, 0, OWN_SUT, reg, mte});
    for (auto &o : old) insert_vma(Vma{o.lo, o.hi, prot, 0, o.owner, o.region, mte});
    if (CFG.mte) for (u64 pgx = a; pgx < a + L; pgx += PG) { auto it = mte_pages.find(pgx); if (it != mte_pages.end()) { free(it->second); mte_pages.erase(it); } }
    ev(0xa3, a, L, prot);
    return (void *)a;
}
int sim_munmap(void *addr, size_t len) {
    u64 a = untag((u64)addr), L = pg_up(len);
    sysent("munmap", a, len, 0);
    Vma *v = vma_at(a), *w = L ? vma_at(a + L - 1) : nullptr;
    bool splits = v && w && v == w && v->lo < a && v->hi > a + L;
    int e = memfault(F_MUNMAP_ENOMEM, "munmap", splits, 0);
    vlog("munmap [%#lx,%#lx)%s", (unsigned long)a, (unsigned long)(a + L), e ? " FAILS" : "");
    if (e) { ev(0xb0, a, L, e); if (v && v->region >= 0 && regions[v->region].state == RG_META && regions[v->region].lo == a && regions[v->region].hi == a + L) regions[v->region].state = RG_GONE; errno = e; return -1; }
    if ((a & (PG - 1)) || !len) { errno = EINVAL; return -1; }
    if (!own_check("unmap", a, a + L)) { errno = EINVAL; return -1; }
    on_unmap(a, a + L);
    erase_range(a, a + L);
    ::munmap((void *)a, L);
    ev(0xb1, a, L);
    unmapped(a, a + L);
    return 0;
}
static int do_mprotect(void *addr, size_t len, int prot, int pkey) {
    u64 a = untag((u64)addr), L = pg_up(len);
    sysent("mprotect", a, len, prot);
    sysrule((prot & ~(CFG.mte ? MTEP : 0)) == PROT_READ || (prot & ~(CFG.mte ? MTEP : 0)) == (PROT_READ | PROT_WRITE), "mprotect with protection %#lx", prot);
    prot &= ~(CFG.mte ? MTEP : 0);
    u64 add = 0;
    if (prot & PROT_WRITE) for (u64 x = a; x < a + L;) { Vma *v = vma_at(x); if (!v) break; if (!(v->prot & PROT_WRITE)) add += std::min(v->hi, a + L) - x; x = v->hi; }
    int e = memfault(F_MPROTECT_ENOMEM, "mprotect", true, add);
    vlog("mprotect [%#lx,%#lx) prot %d pkey %d%s", (unsigned long)a, (unsigned long)(a + L), prot, pkey, e ? " FAILS" : "");
    if (e) { ev(0xc0, a, L, e); errno = e; return -1; }
    if (a & (PG - 1)) { errno = EINVAL; return -1; }
    if (pkey > 0 && !pkeys.count(pkey)) { errno = EINVAL; return -1; }
    if (!L) return 0;
    if (!own_check("protection change", a, a + L)) { errno = EINVAL; return -1; }
    on_protect(a, a + L, prot);
    { Vma *v = vma_at(a); if (v && v->region >= 0 && regions[v->region].state == RG_META) cur->grew = true; }
    split_at(a); split_at(a + L);
    commit_acct(a, a + L, -1);
    for (auto it = vmas.lower_bound(a); it != vmas.end() && it->second.lo < a + L; ++it) { it->second.prot = prot; if (pkey >= 0) it->second.pkey = pkey; else if (!CFG.seal) it->second.pkey = 0; }
    commit_acct(a, a + L, 1);
    merge_around(a, a + L);
    if (::mprotect((void *)a, L, prot)) { if (g_misuse_running) return 0; fprintf(stderr, "simulator: real mprotect failed: %s\n", strerror(errno)); run_exit(3); }
    ev(0xc1, a, L, prot * 64 + pkey);
    if (is_sut_global(a) && !(prot & PROT_WRITE) && slab_lo) g_init_done = true;
    if (a >= slab_lo && a < slab_hi && (prot & PROT_WRITE)) on_protect_done(a, a + L);
    return 0;
}
int sim_mprotect(void *addr, size_t len, int prot) { sysrule(!CFG.seal, "mprotect in a build with sealed metadata"); return do_mprotect(addr, len, prot, -1); }
int sim_pkey_mprotect(void *addr, size_t len, int prot, int pkey) { sysrule(CFG.seal, "pkey_mprotect in a build without sealed metadata"); return do_mprotect(addr, len, prot, pkey); }
void *sim_mremap(void *old, size_t ol, size_t nl, int flags, ...) {
    va_list ap; va_start(ap, flags); void *na = (flags & MREMAP_FIXED) ? va_arg(ap, void *) : nullptr; va_end(ap);
    u64 o = untag((u64)old), n = untag((u64)na), OL = pg_up(ol), NL = pg_up(nl);
    sysent("mremap", o, ol, nl);
    sysrule(flags == 0 || flags == (MREMAP_MAYMOVE | MREMAP_FIXED), "mremap with flags %#lx", flags);
    int e = memfault(F_MREMAP_ENOMEM, "mremap", true, 0);
    vlog("mremap [%#lx +%#lx) -> [%#lx +%#lx)%s", (unsigned long)o, (unsigned long)OL, (unsigned long)n, (unsigned long)NL, e ? " FAILS" : "");
    if (e) { ev(0xd0, o, n, e); if (flags & MREMAP_FIXED) count(C_mremap_fallback); errno = e; return MAP_FAILED; }
    if (!(flags & MREMAP_FIXED)) { R->fault_cnt[F_NATURAL]++; errno = ENOMEM; return MAP_FAILED; } // never room to grow in place
    if ((o | n) & (PG - 1) || !nl) { errno = EINVAL; return MAP_FAILED; }
    if (o < n + NL && n < o + OL) { errno = EINVAL; return MAP_FAILED; }
    if (!own_check("remap source", o, o + OL) || !own_check("remap target", n, n + NL)) { errno = EINVAL; return MAP_FAILED; }
    Vma *v = vma_at(o);
    if (!v) { errno = EFAULT; return MAP_FAILED; }
    if (v->hi < o + OL) { errno = EFAULT; return MAP_FAILED; }
    int prot = v->prot; bool mte = v->mte; Vma *t = vma_at(n); int reg = t ? t->region : -1;
    on_move(o, o + OL, n, n + NL);
    void *m = ::mremap((void *)o, OL, NL, MREMAP_MAYMOVE | MREMAP_FIXED, (void *)n);
    if (m == MAP_FAILED) { fprintf(stderr, "simulator: real mremap failed: %s\n", strerror(errno)); run_exit(3); }
    erase_range(n, n + NL); insert_vma(Vma{n, n + NL, prot, 0, OWN_SUT, reg, mte});
    erase_range(o, o + OL);
    count(C_mremap_moves); ev(0xd1, o, n, NL);
    unmapped(o, o + OL);
    return (void *)n;
}
int sim_madvise(void *addr, size_t len, int advice) {
    u64 a = untag((u64)addr), L = pg_up(len);
    sysent("madvise", a, len, advice);
    sysrule(advice == MADV_DONTNEED, "madvise with advice %lu", advice);
    if (advice != MADV_DONTNEED && advice != MADV_FREE) return 0;
    int e = memfault(F_MADVISE_ENOMEM, "madvise", false, 0);
    vlog("madvise [%#lx,%#lx)%s", (unsigned long)a, (unsigned long)(a + L), e ? " FAILS" : "");
    if (e) { ev(0xe0, a, L, e); errno = e; return -1; }
    if (a & (PG - 1)) { errno = EINVAL; return -1; }
    if (!own_check("purge", a, a + L)) { errno = EINVAL; return -1; }
    on_purge(a, a + L);
    if (advice == MADV_DONTNEED) ::madvise((void *)a, L, MADV_DONTNEED);
    ev(0xe1, a, L);
    return 0;
}
int sim_prctl(int op, ...) {
    sysent("prctl", op, 0, 0);
    va_list ap; va_start(ap, op); unsigned long sub = va_arg(ap, unsigned long), lo = va_arg(ap, unsigned long); va_end(ap);
    (void)lo; sysrule(CFG.label && op == 0x53564d41 && !(u32)sub, "prctl with operation %#lx", op);
    if (fault_decide(F_PRCTL, rate[F_PRCTL])) { errno = EINVAL; return -1; }
    return 0;
}
int sim_pkey_alloc(unsigned, unsigned rights) {
    sysrule(CFG.seal, "pkey_alloc in a build without sealed metadata");
    sysent("pkey_alloc", 0, 0, 0);
    if (fault_decide(F_PKEY_ALLOC, rate[F_PKEY_ALLOC])) { errno = ENOSPC; return -1; }
    int k = pkey_next++; pkeys.insert(k);
    if (rights) cur->pkru |= 1u << k; else cur->pkru &= ~(1u << k);
    return k;
}
int sim_pkey_free(int k) { pkeys.erase(k); return 0; }
int sim_pkey_set(int k, unsigned rights) { if (k < 0 || k > 15) { errno = EINVAL; return -1; } if (rights) cur->pkru |= 1u << k; else cur->pkru &= ~(1u << k); ev(0x9e, k, rights); return 0; }
int sim_pkey_get(int k) { return cur->pkru >> k & 1; }
long sim_sysconf(int n) {
    if (n == _SC_PAGESIZE) { cur->sysidx++; if (fault_decide(F_PAGESIZE, rate[F_PAGESIZE])) { cur->expect_fatal = true; cur->expect_cls = V_INIT; return 16384; } return 4096; }
    return ::sysconf(n);
}
int sim_pthread_atfork(void (*p)(void), void (*q)(void), void (*c)(void)) {
    cur->sysidx++;
    maybe_switch_sync();
    if (++g_atfork_calls > 1) violation(V_INIT, "fork handlers are registered twice");
    g_init_done = true;
    if (S.get("reent_atfork")) { // registering may itself allocate
        count(C_reentrant_calls);
        reent_use();
    }
    g_inited = true;
    if (fault_decide(F_ATFORK, rate[F_ATFORK])) { cur->expect_fatal = true; cur->expect_cls = V_INIT; return ENOMEM; }
    atfork_prepare = p; atfork_parent = q; atfork_child = c; handoff_rel(ATFORK_KEY);
    return 0;
}

// ---------------------------------------------------------------- entropy
ssize_t sim_getrandom(void *buf, size_t n, unsigned gflags) {
    g_at_random = g_inited; sysent("getrandom", n, 0, 0); g_at_random = false;
    sysrule(gflags == 0, "getrandom with flags %#lx", gflags);
    if (fault_decide(F_GR_EINTR, rate[F_GR_EINTR])) { ev(0x70, 1); errno = EINTR; return -1; }
    u64 v;
    if (fault_decide(F_GR_FAIL, rate[F_GR_FAIL], &v)) { static const int es[] = {EIO, ENOSYS, EFAULT, EINVAL, EAGAIN, EPERM}; cur->expect_fatal = true; cur->expect_cls = V_ENTROPY; ev(0x70, 2); if (v % 7 == 0) return 0; errno = es[v % 6]; return -1; }
    size_t k = n;
    if (n > 1 && fault_decide(F_GR_SHORT, rate[F_GR_SHORT], &v)) { k = 1 + v % (n - 1); ev(0x70, 3, k); }
    access_hook((u64)buf, k, true);
    for (size_t i = 0; i < k; i++) {
        u64 pos = g_entropy_pos + i;
        u8 b = (u8)(mix64(g_entropy_seed * 0x100000001b3ull + pos) >> 13);
        if (pos == g_entropy_flip) b ^= 0x40;
        if (flip_after_init && g_init_done) b ^= (u8)(mix64(pos) >> 7) | 1; // everything from here on differs
        ((u8 *)buf)[i] = b;
    }
    rng_note_entropy(buf, k);
    g_entropy_pos += k; R->entropy_used = g_entropy_pos; if (!g_init_done) g_init_entropy = g_entropy_pos; count(C_entropy_bytes, k);
    if (g_inited) count(C_reseed_reads);
    ev(0x71, k);
    return k;
}
int sim_getentropy(void *buf, size_t n) { // seam for a rewritten seeding path
    u8 *p = (u8 *)buf; while (n) { ssize_t r = sim_getrandom(p, n, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; p += r; n -= r; } return 0;
}
// ---------------------------------------------------------------- process output and end
ssize_t sim_write(int fd, const void *buf, size_t n) {
    cur->sysidx++;
    maybe_switch_sync();
    sysrule(fd == 2, "write to descriptor %lu", fd);
    if (fd != 2) return ::write(fd, buf, n);
    // what the caller means to print: a call that continues the previous one adds nothing new
    if (!((const char *)buf == cur->wr_next && n == cur->wr_left && n)) cur->fwant.append((const char *)buf, n);
    cur->wr_next = (const char *)buf; cur->wr_left = n;
    if (fault_decide(F_WR_EINTR, rate[F_WR_EINTR])) { errno = EINTR; return -1; }
    u64 v;
    if (fault_decide(F_WR_FAIL, rate[F_WR_FAIL], &v)) { static const int es[] = {EIO, EBADF, EPIPE, ENOSPC, EAGAIN}; g_wr_failed = true; errno = es[v % 5]; return -1; }
    size_t k = n;
    if (n > 1 && fault_decide(F_WR_SHORT, rate[F_WR_SHORT], &v)) k = 1 + v % (n - 1);
    g_fatal_out.append((const char *)buf, k); cur->fout.append((const char *)buf, k);
    cur->wr_next += k; cur->wr_left -= k;
    if (g_fatal_out.size() > 10000) { violation(V_REPORT, "diagnostic output repeats without end"); run_exit(2); }
    return k;
}
void sim_abort(void) { handle_fatal_stop("abort"); }
int sim_mallopt(int p, int) { if (p == -1003) cur->sigabrt_default = true; return 1; } // bionic: the program's SIGABRT handler is taken out
void async_safe_fatal(const char *fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    maybe_switch_sync();
    static const char pre[] = "hardened_malloc: "; std::string t = b; if (!t.compare(0, sizeof pre - 1, pre)) t.erase(0, sizeof pre - 1);
    t += "\n"; g_fatal_out += t; cur->fout = t; cur->fwant = t;
    if (!cur->sigabrt_default) violation(V_REPORT, "fatal error \"%s\" can be intercepted by the program's SIGABRT handler", b);
    handle_fatal_stop("async_safe_fatal");
}
long sim_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); unsigned long a[6]; for (auto &x : a) x = va_arg(ap, unsigned long); va_end(ap);
    switch (nr) { // the same calls by number
    case SYS_getrandom: return sim_getrandom((void *)a[0], a[1], a[2]);
    case SYS_mmap: return (long)sim_mmap((void *)a[0], a[1], a[2], a[3], a[4], a[5]);
    case SYS_munmap: return sim_munmap((void *)a[0], a[1]);
    case SYS_mprotect: return sim_mprotect((void *)a[0], a[1], a[2]);
    case SYS_madvise: return sim_madvise((void *)a[0], a[1], a[2]);
    case SYS_write: return sim_write(a[0], (void *)a[1], a[2]);
    }
    sysrule(false, "system call number %lu", nr); errno = ENOSYS; return -1;
}
static long foreign_call(const char *n) { maybe_switch_sync(); if (!g_misuse_running) violation(V_SYSCALL, "%s is not among the documented system calls", n); errno = ENOSYS; return -1; }
#define FC(n) long sim_x_##n() { return foreign_call(#n); }
FC(brk) FC(sbrk) FC(open) FC(open64) FC(openat) FC(creat) FC(read) FC(pread) FC(readv) FC(close) FC(ioctl) FC(fcntl) FC(nanosleep) FC(usleep) FC(sleep) FC(clock_nanosleep) FC(poll) FC(select) FC(mlock) FC(munlock) FC(mlock2) FC(mincore) FC(msync) FC(posix_madvise) FC(fork) FC(vfork) FC(kill) FC(tgkill) FC(pthread_kill) FC(pthread_create) FC(sigaction) FC(signal) FC(sigprocmask) FC(pthread_sigmask) FC(getpid) FC(getppid) FC(gettid) FC(getuid) FC(pipe) FC(dup) FC(dup2) FC(socket) FC(sendto) FC(setrlimit) FC(getrlimit) FC(prlimit) FC(sysinfo) FC(memfd_create) FC(shm_open) FC(mbind) FC(execve) FC(sched_getcpu) FC(sched_setaffinity) FC(sched_getaffinity) FC(lseek) FC(stat) FC(fstat) FC(access) FC(unlink) FC(mremap64) FC(fopen) FC(fclose) FC(fread) FC(setpriority) FC(personality) FC(getcpu) FC(munlockall) FC(mlockall) FC(process_madvise)
void sim_exit(int c) { violation(V_REPORT, "process ended by exit(%d) instead of abnormal termination", c); run_exit(3); }
void sim__exit(int c) { sim_exit(c); }
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
    sysrule(fd == 2, "writev to descriptor %lu", fd);
    if (fd != 2) return ::writev(fd, v, n);
    std::string t; for (int i = 0; i < n; i++) t.append((const char *)v[i].iov_base, v[i].iov_len);
    static char buf[4096]; size_t k = std::min(t.size(), sizeof buf); memcpy(buf, t.data(), k);
    return sim_write(fd, buf, k);
}
int sim_raise(int s) { if (s == SIGABRT || s == SIGKILL || s == SIGILL || s == SIGTRAP) handle_fatal_stop("raise"); return 0; }

// ---------------------------------------------------------------- memory functions called by the code under test
static void chunked(u64 a, size_t n, bool w) { // at least two preemption points, one per page
    a = untag(a);
    access_hook(a, n > 4096 ? 4096 : n, w);
}
void *sim_memset(void *p, int c, size_t n) {
    u64 a = untag((u64)p); size_t off = 0;
    chunked(a, n, true);
    while (off < n) { size_t k = n - off; if (k > 4096) k = 4096; else if (off == 0 && k > 32) k = k / 2; memset((void *)(a + off), c, k); off += k; if (off < n) access_hook(a + off, n - off > 4096 ? 4096 : n - off, true); }
    return p;
}
void *sim_memcpy(void *d, const void *s, size_t n) {
    u64 a = untag((u64)d), b = untag((u64)s); size_t off = 0;
    chunked(b, n, false); chunked(a, n, true);
    if (n > (1u << 20)) { // sparse copy: only pages that were touched need moving, the rest reads as zero on both sides
        for (; off < n;) { size_t k = std::min<size_t>(n - off, 65536); memcpy((void *)(a + off), (void *)(b + off), k); off += k; if ((off & 0xfffff) == 0) access_hook(a, 1, true); }
        return d;
    }
    while (off < n) { size_t k = n - off; if (k > 4096) k = 4096; else if (off == 0 && k > 32) k = k / 2; memcpy((void *)(a + off), (void *)(b + off), k); off += k; if (off < n) { access_hook(b + off, n - off > 4096 ? 4096 : n - off, false); access_hook(a + off, n - off > 4096 ? 4096 : n - off, true); } }
    return d;
}
void *sim_memmove(void *d, const void *s, size_t n) { u64 a = untag((u64)d), b = untag((u64)s); chunked(b, n, false); chunked(a, n, true); memmove((void *)a, (void *)b, n); return d; }
int sim_memcmp(const void *x, const void *y, size_t n) { chunked((u64)x, n, false); chunked((u64)y, n, false); return memcmp((void *)untag((u64)x), (void *)untag((u64)y), n); }
void sim_explicit_bzero(void *p, size_t n) { sim_memset(p, 0, n); }

// ---------------------------------------------------------------- memory tagging unit
u64 sim_mte_random_tag(u64 p, u64 excl) {
    u64 a = untag(p); cur->sysidx++;
    Rng r(hash3(g_seed, ((u64)(u32)cur->cur_op << 32) ^ (u64)cur->sysidx, 0x7a6));
    int c[16], n = 0; for (int t = 0; t < 16; t++) if (!(excl >> t & 1)) c[n++] = t;
    u64 t = n ? c[r.below(n)] : 0;
    return a | t << 56;
}
void sim_mte_tag_and_clear(u64 p, size_t n) {
    u64 a = untag(p); u8 t = p >> 56;
    if (cur->tag_inv == 2) { violation(V_TAG, "memory at %#lx is tagged although tagging was disabled", (unsigned long)a); return; }
    if ((a | n) & 15) { violation(V_TAG, "tag operation on misaligned range %#lx+%lu", (unsigned long)a, (unsigned long)n); return; }
    for (u64 x = a; x < a + n; x += 16) {
        Vma *v = vma_at(x);
        if (!v || !v->mte) { violation(V_TAG, "memory at %#lx is tagged but its mapping does not support tags", (unsigned long)x); return; }
        u8 *&pg = mte_pages[pg_dn(x)]; if (!pg) pg = (u8 *)calloc(256, 1);
        pg[(x & (PG - 1)) >> 4] = t;
    }
    chunked(a, n, true);
    memset((void *)a, 0, n);
}
}
u8 *mte_tag_at(u64 a) { static u8 zero; auto it = mte_pages.find(pg_dn(a)); if (it == mte_pages.end()) { zero = 0; return &zero; } return &it->second[(a & (PG - 1)) >> 4]; }
void fork_child_entropy(u64 salt) { g_entropy_seed = mix64(g_entropy_seed + salt * 77 + 5); }

// new-handler seam: behaviour belongs to the current thread's call
extern void nh_dispatch();
std::new_handler sim_get_new_handler() asm("sim_get_new_handler");
std::new_handler sim_get_new_handler() { return cur->nh_mode ? nh_dispatch : nullptr; }
