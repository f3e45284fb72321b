// Reference model of what the program may rely on, checked while a run proceeds.
#include "sim.h"
#include "oracle.h"
#include <sys/mman.h>
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <malloc.h>
#include <new>

std::vector<u32> CLS_SIZE, CLS_SLOTS; u64 MAX_SLAB;
std::map<u64, Blk *> live; std::unordered_map<u64, FreeInfo> freed; std::vector<StalePtr> stale;
std::vector<ClsState> CS; std::map<u64, SlabRec> slabs; std::vector<Piece> pieces;
u64 large_frees_inv, large_inflight, large_tent, g_inflight_alloc, g_settling, live_large, live_large_bytes; int thread_arena_seen[MAXF]; int serial_no;
static std::unordered_map<u64, u64> canary_owner; static std::map<u64, std::pair<u8, u8>> mte_slot;
std::vector<u64> trim_released, trim_purged; std::set<std::pair<int, int>> trim_refused; bool in_trim_watch; u64 zero_live_slots;
std::map<std::pair<int, int>, std::pair<u64, u64>> nmd; // (arena, class) -> allocations, frees
u64 race_addr; bool race_reused; bool g_in_child; int g_child_busy; u64 g_mfixed_faults_base;

ClsState &cs(int arena, int c) { return CS[arena * CLS_SIZE.size() + c]; }
u64 adj(u64 sz) { return sz > 0 && sz <= MAX_SLAB ? sz + canary_sz() : sz; }
u64 cls_real(int c) { return c ? CLS_SIZE[c] : 16; }
u64 slab_len(int c) { return pg_up(CLS_SLOTS[c] * cls_real(c)); }
u64 qlen(u64 base, int c) { if (!base) return 0; u64 sz = cls_real(c); int lg = 63 - __builtin_clzll(sz); int mx = CFG.ext ? 17 : 14; return base << (mx - lg); }
u64 q_total(int c) { return qlen(CFG.q_rand, c) + qlen(CFG.q_queue, c); }
u64 q_min(int c) { return qlen(CFG.q_queue, c) + (CFG.q_rand ? 1 : 0); }

void oracle_init() {
    static const u32 sz[] = {0, 16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048,
        2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072};
    static const u32 sl[] = {256, 256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64, 64, 64, 64, 64, 64, 64, 64, 64, 16, 16, 16, 16, 8, 8, 8, 8, 8, 8, 8, 8, 6, 5, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
    int n = CFG.ext ? 49 : 37;
    CLS_SIZE.assign(sz, sz + n); CLS_SLOTS.assign(sl, sl + n); MAX_SLAB = CFG.ext ? 131072 : 16384;
    CS.assign(CFG.n_arena * n, ClsState());
    for (int i = 0; i < MAXF; i++) thread_arena_seen[i] = -1;
}
u32 size_class_of(u64 s) { for (u32 c = 0; c < CLS_SIZE.size(); c++) if (CLS_SIZE[c] >= s) return c; return ~0u; }
bool in_slab(u64 a) { return a >= slab_lo && a < slab_hi; }
int cls_of_addr(u64 a, int *arena) {
    u64 asz = (slab_hi - slab_lo) / CFG.n_arena, csz = asz / CLS_SIZE.size(), o = a - slab_lo;
    if (arena) *arena = o / asz;
    return (o % asz) / csz;
}
SlabRec *slab_of(u64 a) {
    auto it = slabs.upper_bound(a); if (it == slabs.begin()) return nullptr; --it;
    return a < it->second.lo + it->second.len ? &it->second : nullptr;
}

// ---------------------------------------------------------------- content patterns
static inline u64 word(u64 tag, u64 i) { return (tag * 0x9e3779b97f4a7c15ull + i * 0xc2b2ae3d27d4eb4full) | 0x0101010101010101ull; }
template <class Fn> static void spans(u64 tag, u64 n, Fn fn) { // [off, len) pieces of the block that carry the pattern
    if (n <= 4096) { fn(0, n); return; }
    fn(0, 1024);
    for (int i = 0; i < 8; i++) { u64 o = 1024 + (mix64(tag + i) % (n - 2048 - 64)); o &= ~63ull; if (o < 1024) o = 1024; fn(o, 64); }
    if (n > 65536) for (u64 k = 1; k < 4; k++) { u64 o = (n * k / 4) & ~63ull; fn(o, 64); }
    u64 t = (n - 1024) & ~7ull; fn(t, n - t);
}
static u8 pat_byte(u64 tag, u64 off) { u64 w = word(tag, off >> 3); return w >> ((off & 7) * 8); }
void fill(Blk *b) {
    if (!b->usable || b->zero_size) return;
    spans(b->tag, b->usable, [&](u64 o, u64 n) {
        u64 i = o; for (; i + 8 <= o + n && !(i & 7); i += 8) *(u64 *)(b->addr + i) = word(b->tag, i >> 3);
        for (; i < o + n; i++) *(u8 *)(b->addr + i) = pat_byte(b->tag, i);
    });
}
static i64 first_bad(u64 addr, u64 tag, u64 usable, u64 limit) { // offset of first byte < limit that differs, or -1
    i64 bad = -1;
    spans(tag, usable, [&](u64 o, u64 n) {
        if (bad >= 0 || o >= limit) return;
        u64 e = std::min(o + n, limit); u64 i = o;
        for (; i + 8 <= e && !(i & 7); i += 8) if (*(u64 *)(addr + i) != word(tag, i >> 3)) break;
        for (; i < e; i++) if (*(u8 *)(addr + i) != pat_byte(tag, i)) { bad = i; return; }
    });
    return bad;
}
i64 pattern_bad(u64 addr, u64 tag, u64 usable, u64 limit) { return first_bad(addr, tag, usable, limit); }
bool verify(Blk *b, const char *when) {
    if (b->zero_size || b->nofill) return true;
    if (!range_all(b->addr, b->addr + b->usable, OWN_SUT, PROT_READ | PROT_WRITE, PROT_READ | PROT_WRITE)) { violation(V_LIVE_REMAP, "%s: live block #%d (%lu bytes at %#lx) is not readable and writable any more", when, b->serial, (unsigned long)b->req, (unsigned long)b->addr); return false; }
    i64 o = first_bad(b->addr, b->tag, b->usable, b->usable);
    R->cnt[C_verify_bytes] += std::min<u64>(b->usable, 4096);
    if (o >= 0) { violation(V_CORRUPT, "%s: live block #%d (%lu bytes at %#lx) changed at offset %ld", when, b->serial, (unsigned long)b->req, (unsigned long)b->addr, (long)o); return false; }
    return true;
}
i64 first_nonzero(u64 a, u64 n) {
    u64 i = 0; for (; i + 8 <= n; i += 8) if (*(u64 *)(a + i)) break;
    for (; i < n; i++) if (*(u8 *)(a + i)) return i;
    return -1;
}
static i64 sampled_nonzero(u64 a, u64 n, u64 from, u64 salt) {
    if (from >= n) return -1;
    if (n <= 131072) { i64 r = first_nonzero(a + from, n - from); return r < 0 ? r : (i64)(from + r); }
    u64 pts[24]; int k = 0; pts[k++] = from; pts[k++] = n - 64; for (int i = 0; i < 20; i++) pts[k++] = (from + mix64(salt + i) % (n - from)) & ~63ull;
    for (int i = 0; i < k; i++) { u64 o = std::max(pts[i], from), l = std::min<u64>(64, n - o); i64 r = first_nonzero(a + o, l); if (r >= 0) return o + r; }
    return -1;
}

// ---------------------------------------------------------------- live map
static Blk *live_overlap(u64 lo, u64 hi) {
    auto it = live.upper_bound(lo);
    if (it != live.begin()) { auto p = std::prev(it); u64 e = p->second->addr + std::max<u64>(p->second->zero_size ? 16 : p->second->usable, 1); if (e > lo) return p->second; }
    if (it != live.end() && it->second->addr < hi) return it->second;
    return nullptr;
}
static Blk *live_page_overlap(u64 lo, u64 hi) { // accessible live blocks touching [lo,hi)
    auto it = live.lower_bound(lo);
    if (it != live.begin()) { auto p = std::prev(it); if (!p->second->zero_size && p->second->addr + p->second->usable > lo) return p->second; }
    for (; it != live.end() && it->second->addr < hi; ++it) if (!it->second->zero_size) return it->second;
    return nullptr;
}
u64 large_level() { u64 n = live_large + g_inflight_alloc + g_settling + large_inflight + large_tent; for (int i = 0; i < nfib; i++) if (F[i].depth) F[i].large_peak = std::max(F[i].large_peak, n); return n; }
void live_insert(Blk *b) {
    Blk *o = live_overlap(b->addr, b->addr + (b->zero_size ? 16 : std::max<u64>(b->usable, 1)));
    if (o) violation(V_OVERLAP, "block #%d [%#lx +%lu) overlaps live block #%d [%#lx +%lu)", b->serial, (unsigned long)b->addr, (unsigned long)b->usable, o->serial, (unsigned long)o->addr, (unsigned long)o->usable);
    live[b->addr] = b;
    if (b->small) { ClsState &c = cs(b->arena, b->cls); c.live++; c.maxlive = std::max(c.maxlive, c.live + c.inflight + c.tent); }
    else { live_large++; live_large_bytes += b->usable; large_level(); }
}
void live_remove(Blk *b) {
    auto it = live.find(b->addr);
    if (it == live.end() || it->second != b) return;
    live.erase(it);
    if (b->small) cs(b->arena, b->cls).live--; else { live_large--; live_large_bytes -= b->usable; }
}

// ---------------------------------------------------------------- callbacks from the kernel
static void live_hit(const char *what, u64 lo, u64 hi) {
    Blk *b = live_page_overlap(lo, hi);
    if (b && !g_misuse_running) violation(V_LIVE_REMAP, "%s of [%#lx,%#lx) hits live block #%d [%#lx +%lu)", what, (unsigned long)lo, (unsigned long)hi, b->serial, (unsigned long)b->addr, (unsigned long)b->usable);
}
static void purge_freed(u64 lo, u64 hi) { for (int i = 0; i < nfib; i++) if (F[i].transit && F[i].transit->addr >= lo && F[i].transit->addr < hi) F[i].transit->was_purged = true;
    for (auto &s : freed) if (s.first >= lo && s.first < hi) s.second.purged = true; }
void on_fixed(u64 lo, u64 hi) {
    live_hit("remapping", lo, hi);
    if (in_slab(lo)) {
        auto it = slabs.lower_bound(lo); if (it != slabs.begin()) { auto p = std::prev(it); if (p->second.lo + p->second.len > lo) it = p; }
        for (; it != slabs.end() && it->second.lo < hi; ++it) { if (it->second.rw) { count(C_slab_purged); ClsState &st = cs(it->second.arena, it->second.cls); it->second.rel_ahead = st.released - st.reused; it->second.rel_no = ++st.released; it->second.rel_reused = st.reused; } it->second.rw = false; if (in_trim_watch) trim_released.push_back(it->second.lo); }
        if (cls_of_addr(lo, nullptr) == 0 && in_trim_watch) trim_released.push_back(lo);
        purge_freed(lo, hi);
    }
}
// slabs the kernel refused to take back may stay accessible beyond the limit until they are used again
static std::set<u64> refused_slabs;
void on_fixed_refused(u64 lo, u64 hi) {
    if (!in_slab(lo)) return;
    for (auto it = slabs.lower_bound(lo); it != slabs.end() && it->first < hi; ++it) { refused_slabs.insert(it->first); if (in_trim_watch) trim_refused.insert({it->second.arena, it->second.cls}); }
}
// released slabs come back in the order of release, apart from those held back at random
static void slab_order(SlabRec &s, ClsState &st) {
    if (!s.rel_no || g_misuse_running) return;
    u64 held = CFG.fsq ? CFG.fsq - 1 : 0, need = s.rel_ahead > held ? s.rel_ahead - held : 0, since = st.reused - s.rel_reused;
    count(C_slab_order_checks);
    if (since < need) violation(V_QUAR_SMALL, "slab %#lx of class %lu is taken back into use after %lu others, %lu of those released before it had to come first", (unsigned long)s.lo, (unsigned long)cls_real(s.cls), (unsigned long)since, (unsigned long)need);
    else if (CFG.fsq && st.released == s.rel_no) violation(V_QUAR_SMALL, "slab %#lx of class %lu is taken back into use directly after its release, without the random delay", (unsigned long)s.lo, (unsigned long)cls_real(s.cls));
    st.reused++; s.rel_no = 0;
}
void on_protect(u64 lo, u64 hi, int prot) {
    if (!(prot & PROT_WRITE)) live_hit("write protection", lo, hi);
    if (in_slab(lo) && (prot & PROT_WRITE)) {
        int ar, c = cls_of_addr(lo, &ar);
        if (c == 0) { violation(V_ZERO_ACCESS, "memory for size-zero blocks at %#lx is made accessible", (unsigned long)lo); return; }
        u64 sl = slab_len(c);
        int ar2, c2 = cls_of_addr(hi - 1, &ar2);
        if (c2 != c || ar2 != ar) violation(V_SEGREGATION, "one accessible range [%#lx,%#lx) spans two size class areas", (unsigned long)lo, (unsigned long)hi);
        ClsState &st = cs(ar, c);
        for (u64 a = lo; a + sl <= hi; a += sl) {
            auto it = slabs.find(a);
            if (it == slabs.end()) { slabs[a] = SlabRec{a, sl, ar, c, 1, true, 0, false}; st.nslabs++; count(C_slab_new); }
            else { if (!it->second.rw) { it->second.gen++; it->second.prev_canary = it->second.canary; it->second.canary = 0; it->second.have_canary = false; count(C_slab_recycled); slab_order(it->second, st); } it->second.rw = true; }
        }
        u64 bound = (std::max(st.maxlive, st.live) + g_inflight_alloc + st.inflight + st.tent + q_total(c)) / CLS_SLOTS[c] + CFG.fsq + 1;
        if (st.nslabs > bound && !g_misuse_running)
            violation(V_SLAB_BOUND, "class %lu arena %d uses %lu slabs although %lu slots were ever needed at once, %lu can be withheld and %lu slabs can wait (bound %lu)", (unsigned long)cls_real(c), ar, (unsigned long)st.nslabs, (unsigned long)st.maxlive, (unsigned long)q_total(c), (unsigned long)CFG.fsq, (unsigned long)bound);
    }
}
void on_protect_done(u64 lo, u64 hi) { // guard slab rule, checked once the mapping is in place
    int ar, c = cls_of_addr(lo, &ar); u64 sl = slab_len(c);
    u64 a = lo, b = hi;
    for (;;) { Vma *v = vma_at(a - 1); if (!v || v->owner != OWN_SUT || !(v->prot & PROT_WRITE) || !in_slab(a - 1)) break; a = v->lo; }
    for (;;) { Vma *v = vma_at(b); if (!v || v->owner != OWN_SUT || !(v->prot & PROT_WRITE) || !in_slab(b)) break; b = v->hi; }
    count(C_guard_checks);
    if (b - a > CFG.guard_iv * sl) violation(V_GUARD_SLAB, "%lu consecutive accessible bytes of class %lu exceed %lu slabs without a guard", (unsigned long)(b - a), (unsigned long)cls_real(c), (unsigned long)CFG.guard_iv);
}
void on_purge(u64 lo, u64 hi) {
    live_hit("purging", lo, hi);
    if (in_slab(lo)) { purge_freed(lo, hi); if (in_trim_watch) trim_purged.push_back(lo); }
}
void on_unmap(u64 lo, u64 hi) {
    live_hit("unmapping", lo, hi);
    if (lo < slab_hi && hi > slab_lo && !g_misuse_running) violation(V_SEGREGATION, "part of the reserved small-allocation area [%#lx,%#lx) is unmapped", (unsigned long)lo, (unsigned long)hi);
    for (auto &p : pieces) if (!p.gone && p.lo < hi && p.hi > lo) {
        if (!p.exempt && !g_misuse_running) {
            u64 most = large_frees_inv - p.base + p.inflight + large_tent, need = CFG.rq_queue + (CFG.rq_rand ? 1 : 0);
            count(C_quar_checks);
            if (most < need) violation(V_QUAR_LARGE, "freed large range [%#lx,%#lx) leaves quarantine after at most %lu other frees, %lu are required", (unsigned long)p.lo, (unsigned long)p.hi, (unsigned long)most, (unsigned long)need);
        }
        if (!p.touched) count(C_large_evicted);
        p.touched = true;
    }
}
void on_move(u64 olo, u64 ohi, u64 nlo, u64 nhi) { live_hit("moving", olo, ohi); live_hit("moving onto", nlo, nhi); }

// ---------------------------------------------------------------- large block helpers
void large_extent(u64 addr, int region, u64 *lo, u64 *hi) {
    u64 a = addr, b = addr;
    for (;;) { Vma *v = vma_at(a - 1); if (!v || v->region != region) break; a = v->lo; }
    for (;;) { Vma *v = vma_at(b); if (!v || v->region != region) break; b = v->hi; }
    Vma *v = vma_at(addr); if (v && v->lo < a) a = v->lo;
    *lo = a; *hi = b;
}
bool check_guards(Blk *b, const char *when) {
    if (b->small) {
        if (b->zero_size) { Vma *v = vma_at(b->addr); if (!v || v->owner != OWN_SUT || v->prot) { violation(V_ZERO_ACCESS, "%s: size-zero block at %#lx is accessible", when, (unsigned long)b->addr); return false; } }
        return true;
    }
    count(C_guard_checks);
    u64 e = pg_up(b->addr + b->usable);
    Vma *l = vma_at(b->addr - 1), *r = vma_at(e);
    if (!l || l->owner != OWN_SUT || l->prot || l->region != b->region) { violation(V_GUARD, "%s: no inaccessible guard directly before large block #%d at %#lx", when, b->serial, (unsigned long)b->addr); return false; }
    if (!r || r->owner != OWN_SUT || r->prot || r->region != b->region) { violation(V_GUARD, "%s: no inaccessible guard directly after large block #%d ending at %#lx", when, b->serial, (unsigned long)e); return false; }
    return true;
}

void check_tags(Blk *b) {
    if (!CFG.mte || !b->small || b->zero_size) return;
    count(C_tag_checks);
    u8 t = b->p >> 56; b->mtag = t;
    if (b->tmode == 0) { count(C_untagged_blocks); mte_slot.erase(b->addr); if (t) violation(V_TAG, "block at %#lx has tag %d although tagging was disabled", (unsigned long)b->addr, t); return; }
    if (b->tmode == 2 && !t) { mte_slot.erase(b->addr); return; }
    u64 sz = cls_real(b->cls);
    if (t == 0 || t > 15) { violation(V_TAG, "block at %#lx has reserved tag %d", (unsigned long)b->addr, t); return; }
    for (u64 a = b->addr; a < b->addr + sz; a += 16) if (*mte_tag_at(a) != t) { violation(V_TAG, "memory at %#lx of a block with tag %d carries tag %d", (unsigned long)a, t, *mte_tag_at(a)); return; }
    SlabRec *s = slab_of(b->addr); if (!s) return;
    auto prev = mte_slot.find(b->addr);
    if (prev != mte_slot.end() && prev->second.second == (u8)s->gen && prev->second.first == t) { violation(V_TAG, "slot at %#lx gets the tag %d of its previous generation", (unsigned long)b->addr, t); return; }
    for (int d = -1; d <= 1; d += 2) {
        u64 n = b->addr + d * (i64)sz; if (n < s->lo || n + sz > s->lo + CLS_SLOTS[b->cls] * sz) continue;
        auto it = mte_slot.find(n); if (it == mte_slot.end()) continue;
        auto lv = live.find(n);
        if (lv != live.end() && it->second.first == t) { violation(V_TAG, "adjacent live blocks at %#lx and %#lx share tag %d", (unsigned long)b->addr, (unsigned long)n, t); return; }
        if (lv == live.end() && !any_other_in_sut_alloc() && it->second.first == t && it->second.second == (u8)s->gen) { violation(V_TAG, "block at %#lx has tag %d, the last tag of its freed neighbour", (unsigned long)b->addr, t); return; }
    }
    mte_slot[b->addr] = {t, (u8)s->gen};
}

// called at return from an allocating call; preserve = bytes at the start that may be non-zero (realloc)
Blk *register_block(u64 p, u64 req, u64 align, bool calloc_like, u64 preserve, bool aligned_api) {
    Blk *b = new Blk(); b->p = p; b->addr = untag(p); b->req = req; b->align = align; b->serial = ++serial_no; b->tid = cur->id; b->aligned_api = aligned_api;
    b->tmode = !CFG.mte || cur->tag_last == 2 ? 0 : g_tagstate == 0 ? 1 : 2;
    b->tag = hash3(g_seed, b->serial, 0x7a9); handoff_rel(b->serial);
    u64 a = b->addr; count(C_allocs); if (a == race_addr) race_reused = true;
    if (a & (std::max<u64>(align, 16) - 1)) violation(V_ALIGN, "block of %lu bytes at %#lx is not aligned to %lu", (unsigned long)req, (unsigned long)a, (unsigned long)std::max<u64>(align, 16));
    b->small = in_slab(a);
    if (b->small) {
        b->cls = cls_of_addr(a, &b->arena); u64 sz = cls_real(b->cls);
        b->zero_size = b->cls == 0; b->usable = b->zero_size ? 0 : sz - canary_sz();
        if (b->usable < req) violation(V_SIZE, "request of %lu bytes served with a slot of usable size %lu", (unsigned long)req, (unsigned long)b->usable);
        if (thread_arena_seen[cur->id] < 0) thread_arena_seen[cur->id] = b->arena;
        else if (thread_arena_seen[cur->id] != b->arena) violation(V_ARENA, "thread %d got memory from arena %d after arena %d", cur->id, b->arena, thread_arena_seen[cur->id]);
        if (!b->zero_size) {
            SlabRec *s = slab_of(a);
            if (!s || !s->rw) violation(V_ACCESS, "slot at %#lx is not inside an accessible slab", (unsigned long)a);
            else {
                refused_slabs.erase(s->lo);
                u64 o = a - s->lo;
                if (o % sz || o / sz >= CLS_SLOTS[b->cls]) violation(V_SIZE, "slot at offset %lu of a class %lu slab is not a valid slot", (unsigned long)o, (unsigned long)sz);
            }
        }
        auto fi = freed.find(a);
        if (fi != freed.end()) {
            FreeInfo &f = fi->second; count(C_slot_reused);
            u64 need = q_min(b->cls);
            if (need && !g_misuse_running) {
                u64 most = cs(b->arena, b->cls).frees_inv - f.base + f.inflight + cs(b->arena, b->cls).tent; count(C_quar_checks);
                if (most < need) violation(V_QUAR_SMALL, "slot at %#lx (class %lu) is reused after at most %lu other frees of its class, %lu are required", (unsigned long)a, (unsigned long)sz, (unsigned long)most, (unsigned long)need);
            }
            if (f.corrupt && !f.purged && CFG.waf) violation(V_WAF, "slot at %#lx written at offset %lu after it was freed is handed out again", (unsigned long)a, (unsigned long)f.corrupt_off);
            freed.erase(fi);
        }
    } else {
        count(C_large_alloc);
        Vma *v = vma_at(a);
        if (!v || v->owner != OWN_SUT || v->region < 0) { violation(V_ACCESS, "block at %#lx is not in memory obtained by the allocator", (unsigned long)a); run_exit(3); }
        Region &r = regions[v->region];
        if (r.state == RG_LIVE || r.state == RG_RETIRED) violation(V_OVERLAP, "large block at %#lx placed in a mapping already used by another block", (unsigned long)a);
        b->region = v->region; b->cls = -1;
        r.state = RG_LIVE; r.blk = b;
        b->usable = req; // refined by the caller through the usable-size query
    }
    (void)calloc_like; (void)preserve;
    return b;
}
void finish_block(Blk *b, bool calloc_like, u64 preserve) {
    if (!b->small) {
        large_extent(b->addr, b->region, &b->glo, &b->ghi);
        u64 end = pg_up(b->addr + b->usable);
        if (b->ghi < end) violation(V_SIZE, "large block at %#lx: mapping ends before its usable size", (unsigned long)b->addr);
    }
    if (b->usable < b->req) violation(V_USABLE, "usable size %lu is below the requested %lu", (unsigned long)b->usable, (unsigned long)b->req);
    live_insert(b);
    if (!b->zero_size && !range_all(b->addr, b->addr + std::max<u64>(b->usable, 1), OWN_SUT, PROT_READ | PROT_WRITE, PROT_READ | PROT_WRITE)) { violation(V_ACCESS, "block of %lu bytes at %#lx is not readable and writable throughout", (unsigned long)b->req, (unsigned long)b->addr); b->zero_size = true; return; }
    check_guards(b, "at allocation");
    if (b->zero_size) return;
    if (CFG.zero_on_free || calloc_like || !b->small) {
        count(C_zero_checks);
        i64 o = sampled_nonzero(b->addr, CFG.zero_on_free || !b->small ? b->usable : b->req, preserve, b->tag);
        if (o >= 0) {
            auto cls = calloc_like ? V_CALLOC_NONZERO : V_NONZERO;
            violation(cls, "fresh block #%d (%lu bytes at %#lx) is not zero at offset %ld (%#x)", b->serial, (unsigned long)b->req, (unsigned long)b->addr, (long)o, *(u8 *)(b->addr + o));
        }
    }
    if (b->small && CFG.canary && b->tmode == 0) {
        count(C_canary_checks);
        u64 cv; memcpy(&cv, (void *)(b->addr + b->usable), 8); b->canary = cv;
        SlabRec *s = slab_of(b->addr);
        if (cv & 0xff) violation(V_CANARY_VALUE, "guard value %#lx after block at %#lx does not start with a zero byte", (unsigned long)cv, (unsigned long)b->addr);
        else if (S.get("kx")) {} // draws are made extreme, so values repeat and may be zero
        else if (cv == 0) violation(V_CANARY_VALUE, "guard value after block at %#lx is zero", (unsigned long)b->addr);
        else if (s) {
            if (s->have_canary && s->canary != cv) { /* per-slot values would be stronger still */ }
            if (!s->have_canary) {
                s->have_canary = true; s->canary = cv;
                auto o = canary_owner.find(cv);
                if (o != canary_owner.end()) violation(V_CANARY_VALUE, "guard value %#lx of slab %#lx (use %d) was already used by slab %#lx", (unsigned long)cv, (unsigned long)s->lo, s->gen, (unsigned long)o->second);
                canary_owner[cv] = s->lo;
            }
        }
    }
    check_tags(b);
    fill(b);
}

// ---------------------------------------------------------------- retirement
void retire_small_invoke(Blk *b, u64 base, u64 inflight, bool given) {
    ClsState &c = cs(b->arena, b->cls);
    c.frees_inv++; FreeInfo f; f.base = given ? base + 1 : c.frees_inv; f.inflight = given ? inflight : c.inflight + c.tent; f.serial = b->serial; f.cls = b->cls; f.arena = b->arena; f.corrupt = false; f.purged = false; f.corrupt_off = 0; f.usable = b->usable;
    c.inflight++; f.purged = b->was_purged;
    if (given) { auto it = freed.find(b->addr); if (live.count(b->addr) || (it != freed.end() && it->second.serial > b->serial)) return; } // already in use again
    freed[b->addr] = f;
}
void retire_small_done(Blk *b) { cs(b->arena, b->cls).inflight--; }
void after_small_free(Blk *b) { // memory of the slot right after the freeing call returned
    auto it = freed.find(b->addr);
    if (it == freed.end() || it->second.serial != b->serial || b->zero_size || any_other_in_sut_alloc()) return;
    SlabRec *s = slab_of(b->addr); if (!s || !s->rw) return;
    if (!range_all(b->addr, b->addr + b->usable, OWN_SUT, PROT_READ, PROT_READ)) return;
    if (CFG.zero_on_free) {
        i64 o = first_nonzero(b->addr, b->usable);
        if (o >= 0) violation(V_SCRUB, "freed block #%d (class %lu at %#lx) still has data at offset %ld", b->serial, (unsigned long)cls_real(b->cls), (unsigned long)b->addr, (long)o);
    } else {
        i64 o = pattern_bad(b->addr, b->tag, b->usable, b->usable);
        if (o >= 0 && !it->second.purged && !b->nofill) violation(V_ISOLATION, "allocator stored data inside freed block at %#lx offset %ld", (unsigned long)b->addr, (long)o);
    }
    if (CFG.mte && !g_tagstate) { for (u64 a = b->addr; a < b->addr + cls_real(b->cls); a += 16) if (*mte_tag_at(a) != 0) { violation(V_TAG, "freed memory at %#lx still carries tag %d", (unsigned long)a, *mte_tag_at(a)); break; } }
}
void retire_large(Blk *b, u64 base, u64 inflight) {
    count(C_large_retired);
    Region &r = regions[b->region];
    u64 lo, hi; lo = b->glo; hi = b->ghi;
    pieces.push_back(Piece{b->region, lo, hi, b->addr, b->usable, base, inflight, b->usable >= CFG.rq_skip || (CFG.rq_rand + CFG.rq_queue == 0), false, false});
    r.state = RG_RETIRED; r.blk = nullptr;
}
u64 piece_bytes(const Piece &p) {
    u64 n = 0; auto it = vmas.upper_bound(p.lo); if (it != vmas.begin()) --it;
    for (; it != vmas.end() && it->second.lo < p.hi; ++it) if (it->second.region == p.region && it->second.hi > p.lo) n += std::min(it->second.hi, p.hi) - std::max(it->second.lo, p.lo);
    return n;
}
// released address range [lo,hi) of a region right after the call that released it
void check_released(int region, u64 lo, u64 hi, u64 tag, u64 blk_addr, u64 usable, bool had_faults, bool purge_failed, bool must_be_gone, const char *what) {
    if (g_misuse_running) return;
    auto it = vmas.upper_bound(lo); if (it != vmas.begin()) --it;
    u64 bytes = 0; bool acc = false;
    for (; it != vmas.end() && it->second.lo < hi; ++it) if (it->second.region == region && it->second.hi > lo) { bytes += std::min(it->second.hi, hi) - std::max(it->second.lo, lo); if (it->second.prot) acc = true; }
    if (acc && !had_faults) { violation(V_STALE_ACCESS, "%s [%#lx,%#lx) is still accessible", what, (unsigned long)lo, (unsigned long)hi); return; }
    if (acc && !purge_failed) { // the kernel refused: contents must be gone
        i64 bad = -1;
        spans(tag, usable, [&](u64 o, u64 n) { u64 a = blk_addr + o; for (u64 x = std::max(a, lo); x < std::min(a + n, hi) && bad < 0; x++) { Vma *v = vma_at(x); if (!v || v->region != region || !(v->prot & PROT_READ)) break; if (*(u8 *)x) bad = x - blk_addr; } });
        if (bad >= 0) violation(V_SCRUB, "%s: contents at offset %ld survive although the kernel refused to release the memory", what, (long)bad);
    }
    if (must_be_gone && bytes && !had_faults) violation(V_LEAK, "%s [%#lx,%#lx): %lu bytes stay mapped", what, (unsigned long)lo, (unsigned long)hi, (unsigned long)bytes);
}

// ---------------------------------------------------------------- quiescent checks
void quiescent_structural(bool) {
    count(C_quiescent_checks);
    for (auto &kv : live) { if (!verify(kv.second, "at rest")) return; check_guards(kv.second, "at rest");
        if (!kv.second->small) { Blk *b = kv.second; u64 lo, hi; large_extent(b->addr, b->region, &lo, &hi); if (lo > b->glo || hi < b->ghi || (!b->shrunk && (lo != b->glo || hi != b->ghi))) violation(V_LEAK, "mapping of live block #%d changed extent", b->serial); } }
    if (!g_in_child && !mutexes_all_free()) violation(V_MUTEX, "a lock is held although no call is in progress");
    bool memfaults = R->fault_cnt[F_MUNMAP_ENOMEM] || R->fault_cnt[F_MFIXED_ENOMEM] || R->fault_cnt[F_VMA_LIMIT] || R->fault_cnt[F_COMMIT_LIMIT];
    if (g_in_child && g_child_busy) memfaults = true; // what other threads were releasing when the process forked stays mapped in the child
    // quarantine accounting
    u64 held = 0;
    for (auto &p : pieces) {
        u64 n = piece_bytes(p);
        p.gone = n == 0;
        if (n && n != p.hi - p.lo && !memfaults && p.touched) violation(V_PARTIAL_UNMAP, "range [%#lx,%#lx) of a freed large block was only partly unmapped (%lu bytes remain)", (unsigned long)p.lo, (unsigned long)p.hi, (unsigned long)n);
        if (n && p.exempt && !memfaults) violation(V_LEAK, "freed range [%#lx,%#lx) that is not subject to quarantine is still mapped", (unsigned long)p.lo, (unsigned long)p.hi);
        if (n) held++;
    }
    if (held > CFG.rq_rand + CFG.rq_queue && !memfaults) violation(V_QUAR_BOUND, "%lu freed large ranges are still mapped, quarantine holds at most %lu", (unsigned long)held, (unsigned long)(CFG.rq_rand + CFG.rq_queue));
    pieces.erase(std::remove_if(pieces.begin(), pieces.end(), [](const Piece &p) { return p.gone; }), pieces.end());
    if (g_inited && !g_in_child) for (auto &r : regions) if (r.state == RG_FRESH && r.bytes && !memfaults) violation(V_LEAK, "mapping [%#lx,%#lx) made in op %d belongs to no block", (unsigned long)r.lo, (unsigned long)r.hi, r.op);
    // cached empty slabs
    std::map<std::pair<int, int>, std::set<u64>> used;
    for (auto &kv : live) if (kv.second->small && !kv.second->zero_size) { SlabRec *s = slab_of(kv.first); if (s) used[{s->arena, s->cls}].insert(s->lo); }
    std::map<std::pair<int, int>, u64> empty;
    for (auto &s : slabs) if (s.second.rw && !refused_slabs.count(s.first) && !used[{s.second.arena, s.second.cls}].count(s.first)) empty[{s.second.arena, s.second.cls}]++;
    u64 lim = CFG.ext ? 131072 : 65536;
    for (auto &e : empty) {
        int c = e.first.second; ClsState &st = cs(e.first.first, c);
        u64 q = std::min<u64>(q_total(c), st.frees_inv);
        u64 allowed = lim / slab_len(c) + q;
        if (e.second > allowed && !(g_in_child && g_child_busy)) violation(V_EMPTY_LIMIT, "class %lu arena %d keeps %lu accessible slabs without live blocks, at most %lu are allowed", (unsigned long)cls_real(c), e.first.first, (unsigned long)e.second, (unsigned long)allowed);
    }
    // roots are read-only, state is fenced
    if (g_inited && slab_lo) {
        for (auto &kv : vmas) if (kv.second.owner == OWN_GLOBAL && (kv.second.prot & PROT_WRITE)) {
            for (u64 a = kv.second.lo; a < kv.second.hi; a += 8) {
                if (!is_sut_global(a)) continue;
                u64 w = *(u64 *)a; if (w < ARENA_LO || w >= ARENA_HI) continue;
                Vma *v = vma_at(w); if (v && v->owner == OWN_SUT && v->region >= 0 && (regions[v->region].state == RG_META || regions[v->region].state == RG_SLAB)) { violation(V_ISOLATION, "writable global at %#lx points to allocator state", (unsigned long)a); break; }
            }
        }
        for (auto &r : regions) if (r.state == RG_META && r.bytes) {
            Vma *f = vma_at(r.lo), *l = vma_at(r.hi - 1);
            if ((f && f->region == r.id && f->prot) || (l && l->region == r.id && l->prot) || !f || !l) violation(V_ISOLATION, "allocator state area [%#lx,%#lx) has no inaccessible guard at its ends", (unsigned long)r.lo, (unsigned long)r.hi);
            if (CFG.seal && R->fault_cnt[F_PKEY_ALLOC] == 0)
                for (auto &kv : vmas) if (kv.second.region == r.id && (kv.second.prot & PROT_WRITE) && kv.second.pkey <= 0) { violation(V_SEAL, "accessible allocator state [%#lx,%#lx) carries no protection key", (unsigned long)kv.second.lo, (unsigned long)kv.second.hi); break; }
        }
    }
    if (g_inited && R->fault_cnt[F_MUNMAP_ENOMEM] == 0) { // what initialisation mapped is in use, or was released
        std::vector<Region *> meta; for (auto &r : regions) if (r.state == RG_META && r.bytes) meta.push_back(&r);
        if (meta.size() > 1) {
            std::set<int> reach; std::vector<std::pair<u64, u64>> todo;
            for (auto &kv : vmas) if (kv.second.owner == OWN_GLOBAL) todo.push_back({kv.second.lo, kv.second.hi});
            while (!todo.empty()) {
                auto t = todo.back(); todo.pop_back();
                for (u64 a = t.first; a + 8 <= t.second; a += 8) {
                    u64 w = *(u64 *)a; if (w < ARENA_LO || w >= ARENA_HI) continue;
                    Vma *v = vma_at(w); if (!v || v->owner != OWN_SUT || v->region < 0 || regions[v->region].state != RG_META || !reach.insert(v->region).second) continue;
                    for (auto &kv : vmas) if (kv.second.region == v->region && (kv.second.prot & PROT_READ)) todo.push_back({kv.second.lo, kv.second.hi});
                }
            }
            for (auto *r : meta) if (!reach.count(r->id)) violation(V_LEAK, "mapping [%#lx,%#lx) made during initialisation is neither used nor released", (unsigned long)r->lo, (unsigned long)r->hi);
        }
    }
    if (g_inited && !g_in_child) {
        u64 cntA[256] = {0}; int seen = 0;
        for (int i = 0; i < nfib; i++) if (thread_arena_seen[i] >= 0) { cntA[thread_arena_seen[i]]++; seen++; }
        if (seen == nfib && CFG.n_arena > 1) { u64 mn = ~0ull, mx = 0; for (u64 k = 0; k < CFG.n_arena; k++) { mn = std::min(mn, cntA[k]); mx = std::max(mx, cntA[k]); }
            if (mx - mn > 1) violation(V_ARENA, "threads are spread unevenly over arenas (%lu on one, %lu on another)", (unsigned long)mx, (unsigned long)mn); }
    }
}
