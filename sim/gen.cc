// Workload generation: one seed decides operations, scheduling policy, faults and environment of a run.
#include "sim.h"
#include "ops.h"
Spec generate(int prop, u64 vseed, u64 index, const char *mode);

namespace {
struct Gen {
    Rng r; Spec s; int prop; int next_id = 1; u32 w[OP_COUNT]; int nthreads = 1, nphases = 1, nh = 16; std::vector<u64> focus; int size_mode = 0; std::vector<std::pair<int, int>> probes; int forced_pct = 0; u64 big_cap = 8 << 20; int nh_pct = 10; int realloc_mode = 0; u64 churn_max = 60, burst_max = 40, zero_burst = 0, zero_churn = 0; bool aligned_big = true;
    Gen(u64 seed, int p) : r(seed), prop(p) {
        memset(w, 0, sizeof w);
        w[OP_MALLOC] = 40; w[OP_CALLOC] = 12; w[OP_REALLOC] = 24; w[OP_FREE] = 60; w[OP_FREE_SIZED] = 10; w[OP_CFREE] = 2; w[OP_ALIGNED] = 6; w[OP_POSIX_MEMALIGN] = 6; w[OP_MEMALIGN] = 5; w[OP_VALLOC] = 2; w[OP_PVALLOC] = 2;
        w[OP_USABLE] = 4; w[OP_OBJSIZE] = 3; w[OP_OBJSIZE_FAST] = 2; w[OP_TRIM] = 2; w[OP_MALLINFO] = 1; w[OP_MALLOC_INFO] = 1; w[OP_NEW] = 8; w[OP_DELETE] = 4; w[OP_REALLOC_NULL] = 2; w[OP_NULLOPS] = 1; w[OP_VERIFY] = 4; w[OP_CHURN] = 2; w[OP_BADCALL] = 2; w[OP_BURST] = 3; w[OP_MISC] = 0;
    }
    void P(const char *k, i64 v) { s.p[k] = v; }
    u64 class_edge() {
        u32 n = CLS_SIZE.size(); u32 c = r.chance(1, 2) ? 1 + r.below(std::min<u32>(n - 1, 24)) : 1 + r.below(n - 1);
        u64 x = CLS_SIZE[c] - canary_sz(); switch (r.below(6)) { case 0: x += 1; break; case 1: x = x > 1 ? x - 1 : 1; break; case 2: x = 1 + r.below(CLS_SIZE[c]); break; case 3: x = CLS_SIZE[c] - 4; break; default: break; }
        return x;
    }
    u64 large() {
        static const u64 k[] = {131072, 131073, 135168, 163840, 163841, 262144, 200000, 1 << 20, (1 << 20) - 4096, 4 << 20, (4 << 20) + 4096, (4 << 20) - 4096, 5 << 20, 3 << 20};
        u64 x; switch (r.below(5)) { case 0: x = k[r.below(sizeof k / sizeof *k)]; break; case 1: x = MAX_SLAB + 1 + r.below(8192); break; case 2: x = pg_up(MAX_SLAB + r.below(1 << 20)) + r.below(3) - 1; break; case 3: x = MAX_SLAB + r.below(1 << r.range(15, 22)); break; default: x = r.below(big_cap); break; }
        if (r.chance(1, 60)) x = r.chance(1, 2) ? CFG.rq_skip - 4096 + r.below(8192) : (33u << 20) + r.below(1 << 20);
        return x <= MAX_SLAB ? MAX_SLAB + 1 + x : x;
    }
    u64 huge() {
        static const u64 k[] = {32ull << 20, (32ull << 20) + 1, (32ull << 20) - 4096, (32ull << 20) + 4096, 40ull << 20, 64ull << 20, 48ull << 20, (40ull << 20) + 1};
        switch (r.below(6)) { case 0: return k[r.below(8)]; case 1: return (33ull << 20) + r.below(40 << 20); case 2: return (24ull << 20) + r.below(16 << 20); case 3: return pg_up((31ull << 20) + r.below(2 << 20)); case 4: return (32ull << 20) + r.below(30 << 20); default: return large(); }
    }
    u64 size() {
        if (!focus.empty() && r.chance(9, 10)) { u64 f = focus[r.below(focus.size())]; return r.chance(1, 5) ? std::max<u64>(1, f - r.below(std::min<u64>(f, 6))) : f; }
        if (r.chance(1, 30)) return 0;
        switch (size_mode) {
        case 1: return class_edge();
        case 2: return large();
        case 3: return r.chance(1, 2) ? class_edge() : large();
        case 4: return huge();
        default: { u64 k = r.below(10); if (k < 5) return class_edge(); if (k < 7) return 1 + r.below(300); if (k < 8) return 1 + r.below(20000); return large(); }
        }
    }
    u64 small_align() { return 1ull << r.below(13); }
    u64 align() { if (r.chance(1, 2) || !aligned_big) return small_align(); return 1ull << r.range(12, r.chance(1, 4) ? 24 : 17); }
    Op mk(int tid, int ph, int kind) { Op o = {}; o.id = next_id++; o.tid = tid; o.phase = ph; o.kind = kind; o.h = r.below(nh); return o; }
    u64 fl() { u64 f = 0; if (forced_pct && r.chance(forced_pct, 100)) f |= AF_FORCE; return f; }
    void add(int tid, int ph) {
        u64 tot = 0; for (u32 x : w) tot += x;
        u64 k = r.below(tot); int kind = 0; while (k >= w[kind]) k -= w[kind++];
        add_kind(tid, ph, kind);
    }
    int add_kind(int tid, int ph, int kind) {
        Op o = mk(tid, ph, kind);
        switch (kind) {
        case OP_MALLOC: case OP_VALLOC: case OP_REALLOC_NULL: o.a = size(); o.c = fl(); break;
        case OP_PVALLOC: o.a = std::max<u64>(size(), 1); o.c = fl(); break;
        case OP_CALLOC: { o.a = size(); o.b = 1; if (r.chance(1, 2) && o.a > 3) { o.b = 1 + r.below(std::min<u64>(o.a, 64)); o.a = std::max<u64>(1, o.a / o.b); } o.c = fl(); break; }
        case OP_ALIGNED: case OP_MEMALIGN: o.a = size(); o.b = align(); o.c = fl(); break;
        case OP_POSIX_MEMALIGN: o.a = size(); o.b = std::max<u64>(8, align()); o.c = fl(); break;
        case OP_NEW: { o.a = size(); o.c = r.below(8); if (o.c & 4) o.b = std::max<u64>(1, align()); o.c |= fl(); if (r.chance(nh_pct, 100)) { o.c |= r.range(1, 3) << 8; o.c |= r.below(3) << 12; if (r.chance(2, 3)) o.c |= AF_FORCE; } break; }
        case OP_FREE: case OP_DELETE: o.a = r.below(2); break;
        case OP_REALLOC: o.a = size(); if (realloc_mode && r.chance(1, 2)) o.a = r.chance(1, 3) ? class_edge() : large(); if (r.chance(1, 12)) o.a = 0; o.c = fl(); break;
        case OP_OBJSIZE: case OP_OBJSIZE_FAST: o.b = r.below(3); break;
        case OP_MALLOC_INFO: o.a = r.below(4); break;
        case OP_NULLOPS: o.a = r.below(5000); break;
        case OP_BADCALL: o.a = r.below(12); break;
        case OP_CHURN: o.a = std::max<u64>(1, size()); if (o.a > (1 << 20)) o.a = 1 << 18; o.b = 1 + r.below(churn_max); o.c = r.below(8); break;
        case OP_BURST: o.a = std::max<u64>(1, size()); if (o.a > (1 << 20)) o.a = 1 << 18; o.b = 2 + r.below(burst_max); o.h = 1000 + 200 * r.below(6); break;
        case OP_PROBE: { u64 t = 0; for (auto &p : probes) t += p.second; u64 x = r.below(t); size_t i = 0; while (x >= (u64)probes[i].second) x -= probes[i++].second; o.a = probes[i].first; o.b = r.below(7); o.c = r.below(6); break; }
        case OP_FORK: o.a = 0; break;
        case OP_DISABLE: o.a = r.below(r.chance(1, 3) ? 400 : 40); o.b = r.below(2); break;
        case OP_RNG: { o.a = prop == 35 ? 2 + r.below(2) : prop == 20 || prop == 21 ? 1 : r.below(3) ? r.below(2) : 0;
            if (o.a == 0) o.b = 1 + r.below(10);
            if (o.a == 1) o.b = r.chance(1, prop == 21 ? 2 : 12) ? 30000 + r.below(30000) : 1 + r.below(700);
            if (o.a == 2) { static const u16 e[] = {1, 2, 3, 5, 4, 8, 255, 256, 257, 32767, 32768, 32769, 65535, 65534, 49152, 21846}; u64 k = r.below(5); o.b = k == 0 ? e[r.below(16)] : k == 1 ? 1 + r.below(65535) : k == 2 ? 1 + r.below(300) : k == 3 ? CLS_SLOTS[1 + r.below(CLS_SLOTS.size() - 1)] : std::min<u64>(65535, std::max<u64>(1, (u64[]){CFG.q_rand << r.below(10), CFG.fsq, CFG.rq_rand, CFG.n_arena}[r.below(4)])); }
            if (o.a == 3) { u64 k = r.below(6); o.b = k == 0 ? r.next() >> r.below(62) : k == 1 ? (1ull << 63) - 2 + r.below(5) : k == 2 ? (3ull << r.below(63)) : k == 3 ? ~0ull - r.below(5) : k == 4 ? CFG.class_region / PG + r.below(3) : 2 + r.below(70000); if (o.b < 2) o.b = 3; }
            break; }
        default: break;
        }
        if ((kind == OP_FREE || kind == OP_DELETE || kind == OP_REALLOC) && w[OP_BURST] && r.chance(1, 8)) o.h = 1000 + 200 * r.below(6) + r.below(burst_max);
        if (zero_burst && (kind == OP_FREE || kind == OP_REALLOC || kind == OP_OBJSIZE || kind == OP_OBJSIZE_FAST || kind == OP_USABLE || kind == OP_FREE_SIZED || kind == OP_PROBE) && r.chance(1, 6)) o.h = 5000 + r.below(zero_burst);
        s.ops.push_back(o); return s.ops.size() - 1;
    }
    void sched() {
        static const int pols[] = {1, 2, 3, 4, 2, 3, 4, 4};
        P("pol", nthreads > 1 ? pols[r.below(8)] : 0);
        static const int means[] = {3, 20, 100, 400, 3000}; P("mean", means[r.below(5)]);
        static const int sp[] = {3, 10, 30, 60}; P("syncp", sp[r.below(4)]);
        P("fewp", r.range(5, 70));
        P("place", r.chance(1, 3) ? 9 : r.below(5)); P("entropy", r.next() >> 8);
    }
    // memory refusals
    void memfaults(int pct, bool limits = true) {
        if (!r.chance(pct, 100)) return;
        static const FKind k[] = {F_MMAP_ENOMEM, F_MFIXED_ENOMEM, F_MPROTECT_ENOMEM, F_MUNMAP_ENOMEM, F_MREMAP_ENOMEM, F_MADVISE_ENOMEM};
        static const int rates[] = {30, 150, 600, 2000, 6000};
        for (FKind f : k) if (r.chance(1, 2)) P((std::string("f_") + fkind_name[f]).c_str(), rates[r.below(5)]);
        if (limits && r.chance(1, 5)) P("vma_limit", 20 + r.below(400));
        if (limits && r.chance(1, 6)) P("commit_limit", (20 + r.below(4000)) << 16);
        if (r.chance(1, 4)) forced_pct = 2 + r.below(20);
    }
    void entropy_faults(int pct) {
        if (!r.chance(pct, 100)) return;
        static const int rates[] = {300, 2000, 6000};
        if (r.chance(2, 3)) P("f_GR_EINTR", rates[r.below(3)]);
        if (r.chance(2, 3)) P("f_GR_SHORT", rates[r.below(3)]);
    }
    void focus_some() {
        size_mode = r.below(4);
        if (r.chance(1, 2)) { int n = 1 + r.below(3); std::vector<u64> f; for (int i = 0; i < n; i++) f.push_back(std::max<u64>(1, size())); focus = f; }
    }
    void body(int opt_lo, int opt_hi) {
        for (int ph = 0; ph < nphases; ph++) {
            std::vector<int> left(nthreads + 1); int tot = 0;
            if (zero_churn && !ph) for (int i = 0; i < 2; i++) { Op o = mk(1, 0, OP_CHURN); o.a = 0; o.b = zero_churn; o.c = 0x300 | zero_churn << 16; s.ops.push_back(o); }
            if (zero_burst && !ph) { Op o = mk(1, 0, OP_BURST); o.a = 0; o.b = zero_burst; o.h = 5000; s.ops.push_back(o); }
            for (int t = 1; t <= nthreads; t++) { left[t] = r.range(opt_lo, opt_hi); tot += left[t]; }
            while (tot) { int t = 1 + r.below(nthreads); if (!left[t]) continue; left[t]--; tot--; add(t, ph); }
        }
    }
    void threads(int lo, int hi) { nthreads = r.range(lo, hi); }
    void done() { P("threads", nthreads); P("phases", nphases); }
};
}

Spec generate(int prop, u64 vseed, u64 index, const char *mode) {
    u64 hc = 0; for (const char *p = CFG.name; *p; p++) hc = hc * 131 + (u8)*p; for (const char *p = mode; *p; p++) hc = hc * 131 + (u8)*p;
    u64 seed = hash3(vseed * 1000003 + prop, hc, index) >> 1;
    Gen g(seed, prop); Rng &r = g.r;
    g.P("seed", seed); g.P("prop", prop); 
    g.nh = r.chance(1, 3) ? r.range(3, 8) : r.range(8, 48);
    g.nphases = r.range(1, 3);
    std::string m = mode;
    bool single = r.chance(1, 3);
    if (single) g.threads(1, 1); else g.threads(2, r.chance(1, 4) ? 7 : 3);
    int lo = 6, hi = r.chance(1, 4) ? 90 : 35;
    g.focus_some();
    if (!strcmp(CFG.name, "label") && r.chance(2, 3)) g.P("f_PRCTL", r.chance(1, 2) ? 10000 : 3000); // kernels without names for mappings refuse always
    static const u64 structural = 1ull << 1 | 1ull << 2 | 1ull << 3 | 1ull << 4 | 1ull << 5 | 1ull << 6 | 1ull << 7 | 1ull << 8 | 1ull << 9 | 1ull << 10 | 1ull << 12 | 1ull << 13 | 1ull << 14 | 1ull << 15 | 1ull << 16 | 1ull << 17 | 1ull << 23 | 1ull << 24 | 1ull << 25 | 1ull << 27 | 1ull << 29 | 1ull << 32 | 1ull << 36;
    if ((m == "gen" || m == "grow" || m == "huge") && (structural >> prop & 1) && r.chance(1, 5)) { static const int p[] = {5, 20, 50}; g.P("kx", p[r.below(3)]); } // outcomes of draws at the ends of their range
    if (m == "gen") {
        if (r.chance(1, prop == 25 ? 3 : 12)) g.zero_burst = 200 + r.below(500); // size-zero blocks over several slabs
        if ((prop == 13 || prop == 2 || prop == 1) && !(CFG.q_rand + CFG.q_queue) && r.chance(1, 40)) { g.zero_churn = ((CFG.ext ? 32 : 16) + CFG.fsq + 2 + r.below(6)) * 256; g.P("cpulimit", 100); } // slabs of size-zero blocks leave the cache and come back
        switch (prop) {
        case 1: g.memfaults(50); g.entropy_faults(10); if (r.chance(1, 6)) g.w[OP_FORK] = 2; if (r.chance(1, 3)) g.P("foreign", r.range(5, 60)); if (r.chance(1, 4)) g.P("trimtest", r.range(1, 2)); if (r.chance(1, 3)) g.w[OP_TRIM] = 15; if (r.chance(1, 5)) { g.size_mode = 2; g.focus.clear(); g.w[OP_BURST] = 30; g.burst_max = 120; } break;
        case 2: g.w[OP_BADCALL] = 14; g.w[OP_ALIGNED] = 20; g.w[OP_POSIX_MEMALIGN] = 20; g.w[OP_MEMALIGN] = 15; g.w[OP_VALLOC] = 10; g.w[OP_PVALLOC] = 10; g.w[OP_USABLE] = 15; g.w[OP_NEW] = 20; g.memfaults(35); if (r.chance(1, 2)) g.focus.clear(); break;
        case 3: g.w[OP_REALLOC] = 120; g.realloc_mode = r.below(2); g.memfaults(60); if (r.chance(1, 3)) g.P("foreign", r.range(5, 60)); if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); g.big_cap = 14 << 20; } break;
        case 4: g.memfaults(100); g.forced_pct = r.chance(1, 2) ? r.range(3, 40) : g.forced_pct; g.nphases = r.range(2, 3); g.P("recovery", 1); if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); } if (r.chance(1, 4)) { g.w[OP_BURST] = 30; g.burst_max = 150; } if (r.chance(1, 3)) g.P("freeall", 1); g.w[OP_BADCALL] = 5; break;
        case 5: g.P("f_KERR", (int[]){20, 60, 200, 1000}[r.below(4)]); if (r.chance(1, 2)) { g.P("kerr_mask", 1 << (F_MMAP_ENOMEM + r.below(6))); g.P("f_KERR", (int[]){300, 1000, 5000}[r.below(3)]); } g.memfaults(30); g.w[OP_TRIM] = 8; if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); } if (r.chance(1, 8)) { g.P("init_faults", 1); g.P("noctor", r.below(2)); g.P("f_KERR", 2000); } break;
        case 6: g.w[OP_PROBE] = 40; g.nphases = r.range(1, 2); lo = 10; hi = 40; g.probes = {{PR_STALE, 30}, {PR_INTERIOR, 12}, {PR_MISALIGNED, 8}, {PR_NEIGHBOR, 12}, {PR_GUARD_PTR, 10}, {PR_UNUSED_SLOT, 8}, {PR_UNUSED_SLAB, 8}, {PR_FOREIGN_PTR, 4}, {PR_WILD, 6}, {PR_META_PTR, 4}, {PR_ZERO_STALE, 8}, {PR_STALE_QUERY, 8}, {PR_GAP_PTR, 5}}; g.memfaults(30); if (r.chance(1, 3)) g.P("foreign", r.range(5, 60)); break;
        case 8: g.w[OP_CALLOC] = 40; g.w[OP_REALLOC] = 40; g.memfaults(40); g.w[OP_TRIM] = 6; if (r.chance(1, 3)) g.P("trimtest", 2); if (r.chance(1, 4)) { g.w[OP_BURST] = 20; g.burst_max = 120; } if (r.chance(1, 4)) { u32 n = CLS_SIZE.size(); g.focus = {CLS_SIZE[r.chance(1, 2) ? n - 1 : 1 + r.below(n - 1)] - canary_sz()}; } break;
        case 9: g.w[OP_REALLOC] = 50; g.memfaults(60); if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); g.big_cap = 20 << 20; } break;
        case 10: g.w[OP_PROBE] = 25; g.probes = {{PR_WAF, 1}}; g.nphases = r.range(1, 2); lo = 15; hi = 60; g.size_mode = 1; if (r.chance(2, 3)) { std::vector<u64> f; for (int i = 0; i < 2; i++) f.push_back(CLS_SIZE[1 + (CLS_SIZE.size() - 1 - r.below(r.chance(1, 2) ? 12 : CLS_SIZE.size() - 1)) % (CLS_SIZE.size() - 1)] - canary_sz()); g.focus = f; } g.memfaults(20); if (r.chance(1, 3)) g.w[OP_TRIM] = 8; break;
        case 11: g.w[OP_PROBE] = 30; g.probes = {{PR_OVERFLOW, 1}}; g.size_mode = 1; if (r.chance(1, 2)) { g.w[OP_BURST] = 20; g.burst_max = 100; g.w[OP_TRIM] = 8; } g.memfaults(25); break;
        case 12: g.w[OP_CHURN] = 40; g.churn_max = r.chance(1, 4) ? 900 : 200; g.w[OP_TRIM] = 4; g.memfaults(30); if (r.chance(2, 3)) { std::vector<u64> f; int n = r.range(1, 2); for (int i = 0; i < n; i++) f.push_back(r.chance(1, 2) ? MAX_SLAB + 1 + r.below(300000) : CLS_SIZE[1 + r.below(CLS_SIZE.size() - 1)] - canary_sz()); g.focus = f; } g.w[OP_REALLOC] = 30; break;
        case 13: g.w[OP_ALIGNED] = 20; g.w[OP_MEMALIGN] = 20; g.w[OP_REALLOC] = 50; g.memfaults(50); if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); } if (r.chance(1, 3)) { g.w[OP_BURST] = 40; g.burst_max = 180; g.size_mode = 1; g.w[OP_TRIM] = 8; } break;
        case 14: g.threads(2, 9); g.w[OP_BURST] = 20; g.burst_max = 150; g.memfaults(30); hi = 25; break;
        case 15: g.P("foreign", r.range(10, 90)); g.memfaults(70); g.w[OP_REALLOC] = 60; g.w[OP_ALIGNED] = 20; if (r.chance(2, 3)) { g.focus.clear(); g.size_mode = r.range(2, 3); } g.w[OP_CHURN] = r.chance(1, 3) ? 20 : 2; g.churn_max = 120; g.P("place", r.chance(1, 2) ? 4 : 3); break;
        case 16: g.P("freeall", r.chance(2, 3)); g.memfaults(50); g.w[OP_CHURN] = 12; g.churn_max = r.chance(1, 3) ? 1200 : 150; g.w[OP_BURST] = 12; g.burst_max = 150; g.w[OP_REALLOC] = 40; if (r.chance(1, 3)) { g.focus.clear(); g.size_mode = r.range(2, 3); } if (r.chance(1, 4)) g.P("trimtest", 1);
            if (r.chance(1, 4)) { g.focus = {CLS_SIZE[1 + r.below(CLS_SIZE.size() - 1)] - canary_sz()}; if (r.chance(1, 2)) g.focus[0] = CLS_SIZE[CLS_SIZE.size() - 1 - r.below(20)] - canary_sz(); g.P("f_MFIXED_ENOMEM", (int[]){1000, 4000, 9000}[r.below(3)]); g.P("recovery", 1); g.P("freeall", 1); g.nphases = 3; g.w[OP_BURST] = 60; g.burst_max = r.chance(1, 2) ? 30 : 150; } // slabs the kernel would not take back are used again
            break;
        case 17: g.threads(2, r.chance(1, 3) ? 8 : 3); g.w[OP_TRIM] = 10; g.w[OP_MALLINFO] = 6; g.w[OP_MALLOC_INFO] = 5; g.w[OP_OBJSIZE] = 12; g.w[OP_USABLE] = 10; g.w[OP_BURST] = r.chance(1, 3) ? 25 : 2; g.burst_max = 150; g.memfaults(40); g.entropy_faults(20); if (r.chance(1, 4)) g.w[OP_FORK] = 4; if (r.chance(1, 6)) { g.P("noctor", 1); } if (r.chance(1, 4)) { g.size_mode = 2; g.focus.clear(); } break;
        case 18: g.threads(1, 4); g.w[OP_FORK] = 18; g.memfaults(30); hi = 25; g.w[OP_TRIM] = 6; g.w[OP_MALLOC_INFO] = 3; g.P("child_faults", r.below(2)); g.entropy_faults(20); break;
        case 19: { g.threads(1, 3); g.nphases = 1; hi = 12; g.w[OP_FORK] = 0; break; }
        case 20: g.P("f_GR_EINTR", (int[]){0, 2000, 6000}[r.below(3)]); g.P("f_GR_SHORT", (int[]){0, 3000, 8000}[r.below(3)]); g.P("init_faults", 1); g.P("noctor", r.below(2)); if (r.chance(1, 2)) g.P("f_GR_FAIL", (int[]){300, 2000, 8000}[r.below(3)]); if (r.chance(1, 4)) g.w[OP_FORK] = 8; g.P("child_faults", 1); hi = 15; g.w[OP_RNG] = 12; break;
        case 21: g.entropy_faults(50); g.w[OP_RNG] = 30; hi = 15; g.nphases = 1; break;
        case 23: g.memfaults(50); g.w[OP_ALIGNED] = 15; g.w[OP_MEMALIGN] = 15; g.w[OP_REALLOC] = 40; g.w[OP_TRIM] = 6; g.w[OP_MALLOC_INFO] = 3; if (r.chance(1, 6)) g.w[OP_FORK] = 4; if (r.chance(1, 3)) g.P("trimtest", 2); if (r.chance(1, 6)) { g.w[OP_PROBE] = 4; g.probes = {{PR_STALE, 1}}; } g.nphases = r.range(2, 5); break;
        case 24: g.P("trimtest", r.range(2, 3)); g.w[OP_TRIM] = 15; g.w[OP_BURST] = 20; g.burst_max = 150; g.nphases = r.range(2, 5); g.size_mode = r.chance(2, 3) ? 1 : 0; if (r.chance(1, 2)) g.memfaults(100); if (r.chance(1, 4)) { g.w[OP_PROBE] = 8; g.probes = {{PR_STALE, 2}, {PR_WAF, 2}, {PR_OVERFLOW, 1}}; } break;
        case 25: g.w[OP_OBJSIZE] = 60; g.w[OP_OBJSIZE_FAST] = 40; g.w[OP_TRIM] = 4; g.memfaults(30); break;
        case 26: g.memfaults(70); g.entropy_faults(50); g.w[OP_FREE] = 110; g.w[OP_CFREE] = 20; g.w[OP_CHURN] = 6; if (r.chance(1, 2)) { g.focus.clear(); g.size_mode = r.range(2, 3); } break;
        case 27: g.w[OP_FREE_SIZED] = 70; g.w[OP_DELETE] = 40; g.w[OP_FREE] = 20; g.w[OP_NEW] = 70; g.nh_pct = 2; g.w[OP_PROBE] = 20; g.probes = {{PR_SIZED_MISMATCH, 1}}; if (r.chance(1, 2)) g.focus.clear(); g.memfaults(15); break;
        case 28: g.w[OP_NEW] = 90; g.w[OP_DELETE] = 40; g.nh_pct = 60; g.memfaults(50); g.P("freeall", r.below(2)); break;
        case 29: g.w[OP_FREE] = 100; g.memfaults(30); g.w[OP_TRIM] = 5; if (r.chance(1, 4)) { g.w[OP_BURST] = 30; g.burst_max = 150; g.size_mode = 2; g.focus.clear(); } break;
        case 30: g.w[OP_TRIM] = 6; g.w[OP_MALLOC_INFO] = 6; g.w[OP_MALLINFO] = 4; g.w[OP_OBJSIZE] = 8; g.memfaults(60); if (r.chance(1, 3)) g.w[OP_FORK] = 8; if (r.chance(1, 4)) { g.w[OP_PROBE] = 8; g.probes = {{PR_STALE, 1}, {PR_INTERIOR, 1}}; } if (r.chance(1, 8)) { g.P("init_faults", 1); g.P("f_PKEY_ALLOC", 5000); } if (r.chance(1, 4)) { g.w[OP_BURST] = 30; g.burst_max = 150; g.size_mode = 2; g.focus.clear(); } break;
        case 31: g.w[OP_PROBE] = 40; g.probes = {{PR_STALE, 10}, {PR_INTERIOR, 8}, {PR_MISALIGNED, 8}, {PR_NEIGHBOR, 6}, {PR_GUARD_PTR, 4}, {PR_WILD, 8}, {PR_ZERO_STALE, 4}, {PR_SIZED_MISMATCH, 8}, {PR_OVERFLOW, 8}, {PR_WAF, 3}}; { int k = r.below(4); if (k != 1) g.P("f_WR_EINTR", (int[]){1000, 4000, 7000}[r.below(3)]); if (k != 2) g.P("f_WR_SHORT", (int[]){2000, 6000, 9500}[r.below(3)]); if (k == 3) g.P("f_WR_FAIL", (int[]){1000, 5000, 10000}[r.below(3)]); } if (r.chance(1, 4)) g.P("f_KERR", 100); g.nphases = 1; hi = 40; break;
        case 32: g.P("noctor", 1); g.threads(1, 6); g.nphases = r.range(1, 2); lo = 1; hi = 8; g.P("reent_atfork", r.chance(1, 3)); g.P("preinit", r.chance(1, 3)); if (r.chance(1, 3)) { g.P("init_faults", 1); static const FKind k[] = {F_MMAP_ENOMEM, F_MFIXED_ENOMEM, F_MPROTECT_ENOMEM, F_PKEY_ALLOC, F_ATFORK, F_PAGESIZE, F_GR_FAIL, F_PRCTL, F_KERR}; int n = r.range(1, 3); for (int i = 0; i < n; i++) g.P((std::string("f_") + fkind_name[k[r.below(9)]]).c_str(), (int[]){200, 2000, 9000}[r.below(3)]); } else if (r.chance(1, 4)) g.P("noctor", 0);
            g.w[OP_MISC] = 3; g.w[OP_NULLOPS] = 3; break;
        case 33: g.size_mode = r.chance(4, 5) ? 1 : 0; g.focus.clear(); if (r.chance(2, 3)) { g.focus = {g.class_edge(), g.class_edge()}; if (!g.focus[0]) g.focus[0] = 1; } g.w[OP_TRIM] = 8; g.w[OP_BURST] = 10; g.memfaults(20); if (r.chance(1, 3)) { g.w[OP_PROBE] = 8; g.probes = {{PR_STALE, 1}, {PR_INTERIOR, 1}, {PR_SIZED_MISMATCH, 1}}; } g.w[OP_OBJSIZE] = 10; g.w[OP_CHURN] = 8; break;
        case 34: g.entropy_faults(60); g.w[OP_RNG] = 60; g.memfaults(20); if (r.chance(1, 5)) g.w[OP_FORK] = 4; if (r.chance(1, 4)) g.w[OP_BURST] = 20; lo = 3; hi = 15; g.nphases = 1; break;
        case 35: g.entropy_faults(30); g.w[OP_RNG] = 100; g.nphases = 1; g.threads(1, 2); lo = 2; hi = 6; break;
        case 38: g.memfaults(70); g.entropy_faults(20); g.w[OP_TRIM] = 8; g.w[OP_REALLOC] = 60; g.w[OP_MALLINFO] = 4; g.w[OP_MALLOC_INFO] = 4; g.w[OP_BADCALL] = 4; if (r.chance(1, 5)) g.w[OP_FORK] = 4; if (r.chance(1, 3)) { g.size_mode = r.range(2, 3); g.focus.clear(); } if (r.chance(1, 4)) { g.w[OP_BURST] = 20; g.burst_max = 120; } if (r.chance(1, 3)) { g.w[OP_CHURN] = 10; g.churn_max = 300; } if (r.chance(1, 4)) g.P("noctor", 1); break;
        case 39: g.threads(2, r.chance(1, 2) ? 8 : 4); g.memfaults(30); g.entropy_faults(20); g.size_mode = r.below(4); if (r.chance(1, 2)) g.focus.clear(); g.w[OP_USABLE] = 12; g.w[OP_OBJSIZE] = 12; g.w[OP_TRIM] = r.chance(1, 4) ? 6 : 0; g.w[OP_BURST] = r.chance(1, 3) ? 25 : 2; g.burst_max = 100; hi = r.chance(1, 2) ? 40 : 25; break;
        case 40: g.memfaults(60); g.entropy_faults(20); g.w[OP_REALLOC] = 50; g.w[OP_USABLE] = 12; g.w[OP_OBJSIZE] = 12; g.w[OP_ALIGNED] = 15; if (r.chance(1, 3)) { g.size_mode = r.range(2, 3); g.focus.clear(); } if (r.chance(1, 3)) { g.w[OP_BURST] = 20; g.burst_max = 150; } if (r.chance(1, 3)) { g.w[OP_CHURN] = 12; g.churn_max = 300; } break;
        case 36: g.memfaults(50); g.entropy_faults(20); g.w[OP_TRIM] = 6; if (r.chance(1, 6)) g.w[OP_FORK] = 4; g.w[OP_REALLOC] = 50; g.w[OP_FREE_SIZED] = 30; if (r.chance(1, 3)) { g.w[OP_CHURN] = 12; g.churn_max = 500; } if (r.chance(1, 3)) g.P("foreign", r.range(5, 60)); if (r.chance(1, 4)) g.P("noctor", 1); break;
        default: g.memfaults(50); break;
        }
        if (prop == 7) {
            g.threads(2, 3); g.nphases = 2; g.size_mode = r.below(4); g.memfaults(15, false); g.forced_pct = 0; g.w[OP_TRIM] = 1;
            for (int i = 0; i < (int)r.below(8); i++) g.add(1, 0);
            int h = 500; Op o = g.mk(1, 0, OP_MALLOC); o.h = h; u64 z = g.size(); if (z >= CFG.rq_skip / 2) z = 300000; o.a = z; 
            if (r.chance(1, 5)) { o.kind = OP_ALIGNED; o.b = 1ull << r.range(4, 15); }
            g.s.ops.push_back(o);
            bool quar = CFG.rq_queue + CFG.rq_rand >= 8;
            for (int t = 1; t <= g.nthreads; t++) {
                for (int i = 0; i < (int)r.below(4); i++) g.add(t, 1);
                if (t <= 2 || r.chance(1, 2)) { Op x = g.mk(t, 1, OP_RACE_FREE); x.h = h; x.a = r.below(5); if (!quar && adj(z) > MAX_SLAB) x.a = r.chance(1, 2) ? 0 : 3; x.b = r.below(2); g.s.ops.push_back(x); }
            }
            g.sched(); g.P("clean0", 1); g.done(); return g.s;
        }
        if (prop == 19) {
            g.sched(); g.body(lo, hi); Op o = g.mk(1, 0, OP_FORK); o.a = 1; o.b = r.below(2); g.s.ops.push_back(o); for (int i = 0; i < 3; i++) g.add(1, 0); g.done(); return g.s;
        }
        if (CFG.android) {
            if (prop == 37) { g.threads(2, r.chance(1, 3) ? 7 : 3); g.w[OP_DISABLE] = 40; g.w[OP_TRIM] = 6; g.w[OP_MALLINFO] = 6; g.w[OP_OBJSIZE] = 10; g.w[OP_FORK] = r.chance(1, 4) ? 6 : 0; g.memfaults(30); hi = 25; if (r.chance(1, 3)) { g.P("noctor", 1); lo = 1; } if (r.chance(1, 3)) { g.size_mode = 2; g.focus.clear(); } }
            else if (r.chance(1, 3)) g.w[OP_DISABLE] = 4;
            if (CFG.mte) { if (r.chance(1, 2)) g.w[OP_NOTAG] = r.chance(1, 2) ? 2 : 8; if (r.chance(prop == 10 || prop == 11 ? 3 : 1, prop == 10 || prop == 11 ? 4 : 6)) g.P("notag", 1);
                if (prop == 33 && r.chance(1, 4)) { if (r.chance(2, 3)) g.P("notag", 1); g.w[OP_PROBE] = 15; g.probes = {{PR_WAF, 1}, {PR_OVERFLOW, 1}}; } }
        }
        g.sched(); if (prop == 15) g.P("place", r.chance(1, 2) ? 4 : 9);
        if (prop == 32 && g.s.get("noctor") == 1) g.P("pol", r.chance(1, 2) ? 2 : 1);
        g.body(lo, hi); g.done(); return g.s;
    }
    if (m == "huge") { // blocks around the sizes where moving replaces copying and where quarantine is skipped
        g.threads(1, r.chance(1, 2) ? 1 : 2); g.nphases = r.range(1, 2); g.nh = r.range(2, 5); g.size_mode = 4; g.focus.clear(); g.realloc_mode = 0; g.aligned_big = true; g.forced_pct = 0;
        u32 keep[OP_COUNT]; memcpy(keep, g.w, sizeof keep); memset(g.w, 0, sizeof g.w);
        g.w[OP_MALLOC] = 30; g.w[OP_CALLOC] = 10; g.w[OP_ALIGNED] = 4; g.w[OP_REALLOC] = 60; g.w[OP_FREE] = 25; g.w[OP_USABLE] = 3; g.w[OP_FREE_SIZED] = 3; g.w[OP_OBJSIZE] = 2; g.w[OP_VERIFY] = 3; g.w[OP_NEW] = 2; g.w[OP_TRIM] = 1;
        g.memfaults(prop == 5 ? 30 : 75); if (prop == 5) { g.P("f_KERR", (int[]){300, 1000, 3000}[r.below(3)]); if (r.chance(2, 3)) { g.P("kerr_mask", 1 << (r.chance(1, 2) ? F_MREMAP_ENOMEM : F_MMAP_ENOMEM + r.below(6))); g.P("f_KERR", 6000); } }
        if (r.chance(1, 3) || prop == 15) g.P("foreign", r.range(10, 80));
        if (prop == 4) { g.P("recovery", 1); g.nphases = 2; }
        if (prop == 16) g.P("freeall", 1);
        g.sched(); g.body(4, 14); g.done(); return g.s;
    }
    if (m == "flip") { // C20: every delivered seed byte matters, also when the kernel interrupts or shortens its answers
        g.threads(1, 1); g.nphases = 1; g.size_mode = 1; g.focus.clear(); g.sched();
        g.P("f_GR_EINTR", (int[]){0, 3000}[r.below(2)]); g.P("f_GR_SHORT", (int[]){0, 8000, 10000}[r.below(3)]); g.P("init_faults", 1);
        g.P("pair", 20); g.P("flipat", index % 40);
        Op o = g.mk(1, 0, OP_TRACE); o.a = 1; g.s.ops.push_back(o); g.done(); return g.s;
    }
    if (m == "reseed") { // C21: after a bounded amount of use, later entropy must matter
        g.threads(1, 1); g.nphases = 1; g.sched(); g.P("race", 0);
        u64 per = 2 * CFG.slot_rand + 2 * (CFG.q_rand > 0), lper = 8 + 8 * (CFG.rq_rand > 0); // generator output used by one allocation and its deallocation
        bool large = index % 3 == 2 || !per; Op o = g.mk(1, 0, OP_CHURN);
        static const u64 cl[] = {16, 64, 160, 1024, 4096, 16384};
        u64 c = cl[r.below(6)]; o.a = large ? 200000 : c - canary_sz(); o.b = 290000 / (large ? lper : per); o.c = 0x100; g.s.ops.push_back(o);
        g.P("tracecls", large ? 0 : c); g.P("pair", 21); g.P("cpulimit", 200);
        Op t = g.mk(1, 0, OP_TRACE); t.a = 3; g.s.ops.push_back(t); g.done(); return g.s;
    }
    if (m == "erseed") { // C26: frees that reseed while the kernel interrupts
        g.threads(1, 1); g.nphases = 1; g.sched(); g.P("race", 0); g.P("f_GR_EINTR", 9000); g.P("f_GR_SHORT", 5000); g.P("cpulimit", 200);
        Op o = g.mk(1, 0, OP_CHURN); bool large = index % 2; static const u64 cl[] = {16, 64, 1024, 4096}; o.a = large ? 200000 : cl[r.below(4)] - canary_sz(); o.b = 290000 / (large ? 8 + 8 * (CFG.rq_rand > 0) : 2 + 2 * (CFG.q_rand > 0 && CFG.slot_rand)) * (2 + r.below(3)) / 2; o.c = 0x100 | r.below(8); g.s.ops.push_back(o); g.done(); return g.s;
    }
    if (m == "wreseed") { // C39: threads stalled in requests for new seeds
        g.threads(2, 4); g.nphases = 1; g.sched(); g.P("race", 0); g.P("pol", 5); g.P("syncp", 90); g.P("cpulimit", 200); if (r.chance(1, 2)) g.P("f_GR_SHORT", 5000);
        u64 per = 2 * CFG.slot_rand + 2 * (CFG.q_rand > 0), lper = 8 + 8 * (CFG.rq_rand > 0); static const u64 cl[] = {16, 64, 160, 1024, 4096};
        for (int t = 1; t <= g.nthreads; t++) { bool large = !per || r.chance(1, 4); Op o = g.mk(t, 0, OP_CHURN); o.a = large ? 200000 : cl[r.below(5)] - canary_sz(); o.b = 290000 / (large ? lper : per); o.c = r.below(4); g.s.ops.push_back(o); }
        g.done(); return g.s;
    }
    if (m == "differ") { // C22: different entropy, different layout
        g.threads(1, 1); g.nphases = 1; g.size_mode = 1; g.focus.clear(); g.sched(); g.P("pair", 22); g.P("place", 0);
        for (int i = 0; i < (int)r.below(10); i++) g.add(1, 0);
        g.s.ops.erase(std::remove_if(g.s.ops.begin(), g.s.ops.end(), [](const Op &o) { return o.kind == OP_CHURN || o.kind == OP_BURST; }), g.s.ops.end());
        Op o = g.mk(1, 0, OP_TRACE); o.a = 1; g.s.ops.push_back(o); g.done(); return g.s;
    }
    if (m == "stat") { // C22: coverage and independence of the choices over many runs
        g.threads(1, 1); g.nphases = 1; g.sched(); g.P("place", 0); g.P("stat", 220); g.P("race", 0);
        Op o = g.mk(1, 0, OP_TRACE); o.a = 2; g.s.ops.push_back(o); g.done(); return g.s;
    }
    if (m == "many") { // thousands of blocks: no call's work depends on how many there are
        g.threads(1, 1); g.nphases = 2; g.P("race", 0); g.P("cpulimit", 200); g.focus.clear(); std::vector<u32> ks; for (u32 k = 1; k < CLS_SIZE.size(); k++) if (CLS_SLOTS[k] <= 8) ks.push_back(k);
        bool large = r.chance(1, 3); u32 k = ks[r.below(ks.size())]; u64 sz = large ? MAX_SLAB + 1 + r.below(1 << 18) : CLS_SIZE[k] - canary_sz(), n = (2000 + r.below(1500)) * (large ? 1 : CLS_SLOTS[k]);
        g.focus = {sz}; g.size_mode = 0; g.w[OP_BURST] = 0; if (r.chance(1, 3)) g.memfaults(100);
        Op b = g.mk(1, 0, OP_BURST); b.a = sz; b.b = n; b.h = 5000; g.s.ops.push_back(b);
        int rounds = 1 + r.below(3);
        for (int i = 0; i < rounds; i++) {
            Op w = g.mk(1, 0, OP_SWEEP); w.a = (int[]){10, 30, 60, 100}[r.below(4)]; w.b = n; w.c = r.below(3); w.h = 5000; g.s.ops.push_back(w);
            for (int j = 4 + r.below(12); j; j--) g.add(1, 0);
            if (r.chance(1, 2)) { b.id = g.mk(1, 0, OP_BURST).id; g.s.ops.push_back(b); }
        }
        g.sched(); g.done(); return g.s;
    }
    if (m == "grow") { // many large blocks: growth of the table of regions, also when the kernel refuses
        g.threads(1, r.chance(1, 2) ? 1 : 3); g.nphases = 2; g.size_mode = 2; g.focus = {MAX_SLAB + 1 + r.below(100000)}; g.w[OP_BURST] = 120; g.burst_max = 160; g.w[OP_CHURN] = 1; g.w[OP_FREE] = 80; g.memfaults(60); g.sched(); g.body(6, 25); g.done(); return g.s;
    }
    fprintf(stderr, "unknown mode %s\n", mode); exit(9);
}
