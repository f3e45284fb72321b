// Command line: batches of seeded runs, replay, minimisation.
#include "sim.h"
#include "ops.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
#include <cmath>
#include <cstdarg>
#include <csignal>
Spec generate(int prop, u64 vseed, u64 index, const char *mode);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- replay files
static int find_name(const char *const *names, int n, const char *s) { for (int i = 0; i < n; i++) if (!strcmp(names[i], s)) return i; return -1; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) o += c == '\n' ? ' ' : c; return o; }
static void save_spec(const Spec &s, const char *path, const Result *res) {
    FILE *f = fopen(path, "w"); if (!f) return;
    fprintf(f, "# replay: python3 check.py replay <this file>\nconfig %s\nprop %ld\n", CFG.name, (long)s.get("prop"));
    if (res) fprintf(f, "class %s\nhash %lx\n# %s\n", vclass_name[res->cls], (unsigned long)res->hash, esc(res->msg).c_str());
    fprintf(f, "explicit %d\n", s.is_explicit);
    for (auto &p : s.p) fprintf(f, "p %s %ld\n", p.first.c_str(), (long)p.second);
    for (auto &o : s.ops) fprintf(f, "op %d %d %d %s %d %lu %lu %lu\n", o.id, o.tid, o.phase, opkind_name[o.kind], o.h, (unsigned long)o.a, (unsigned long)o.b, (unsigned long)o.c);
    for (auto &x : s.faults) fprintf(f, "fault %d %d %s %lu\n", x.op, x.idx, fkind_name[x.kind], (unsigned long)x.val);
    for (auto &x : s.switches) fprintf(f, "switch %d %lu %d\n", x.op, (unsigned long)x.pts, x.to);
    fclose(f);
}
static bool load_spec(const char *path, Spec &s, std::string *cls, u64 *hash) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char line[1000], a[200], b[200];
    while (fgets(line, sizeof line, f)) {
        long v; int i1, i2, i3; unsigned long u1, u2, u3; int h;
        if (sscanf(line, "p %199s %ld", a, &v) == 2 && line[0] == 'p' && line[1] == ' ') s.p[a] = v;
        else if (sscanf(line, "explicit %ld", &v) == 1) s.is_explicit = v;
        else if (sscanf(line, "class %199s", a) == 1) { if (cls) *cls = a; }
        else if (sscanf(line, "hash %lx", &u1) == 1) { if (hash) *hash = u1; }
        else if (sscanf(line, "op %d %d %d %199s %d %lu %lu %lu", &i1, &i2, &i3, b, &h, &u1, &u2, &u3) == 8) { Op o = {}; o.id = i1; o.tid = i2; o.phase = i3; o.kind = find_name(opkind_name, OP_COUNT, b); o.h = h; o.a = u1; o.b = u2; o.c = u3; s.ops.push_back(o); }
        else if (sscanf(line, "fault %d %d %199s %lu", &i1, &i2, b, &u1) == 4) s.faults.push_back({i1, i2, find_name(fkind_name, F_COUNT, b), u1});
        else if (sscanf(line, "switch %d %lu %d", &i1, &u1, &i2) == 3) s.switches.push_back({i1, u1, i2});
    }
    fclose(f);
    return true;
}

// ---------------------------------------------------------------- executing one specification in child processes
static Result *shm; // RC[0..2]
static void run_child(const Spec &s, bool record, const char *recpath) {
    memset(RC[0], 0, sizeof(Result)); OUT->kind = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(9); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        S = s; R = RC[0]; g_record = record; g_rec_path = recpath ? recpath : "";
        run_spec_child();
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (RC[0]->status == 0) { RC[0]->status = 3; snprintf(RC[0]->msg, sizeof RC[0]->msg, "run ended without a result (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
}
static std::map<u64, std::vector<u64>> groups(const Result *r) { std::map<u64, std::vector<u64>> g; std::vector<u64> c; for (u32 i = 0; i < r->ntrace; i++) { u64 x = r->trace[i]; if (x >= ~0ull - 200) { g[~0ull - x] = c; c.clear(); } else c.push_back(x); } return g; }
static void merge_counts(Result *into, const Result *from) {
    for (int i = 0; i < C_COUNT; i++) into->cnt[i] += from->cnt[i];
    for (int i = 0; i < F_COUNT; i++) into->fault_cnt[i] += from->fault_cnt[i];
    for (int i = 0; i < OP_COUNT; i++) into->op_cnt[i] += from->op_cnt[i];
    for (int i = 0; i < V_COUNT; i++) into->vother[i] += from->vother[i];
}
static void fail(Result *r, VClass c, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void fail(Result *r, VClass c, const char *fmt, ...) { va_list a; va_start(a, fmt); r->status = 2; r->cls = c; vsnprintf(r->msg, sizeof r->msg, fmt, a); va_end(a); r->hash = mix64(r->hash ^ c); }
static void pair_check(const Spec &s, Result *r) {
    int kind = s.get("pair"); if (r->status != 1) return;
    Result *a = new Result(*r); Spec t = s;
    if (kind == 20) t.p["flip"] = s.get("flipat"); else if (kind == 21) t.p["flipinit"] = 1; else if (kind == 22) t.p["entropy"] = s.get("entropy") ^ 0x5555;
    run_child(t, false, nullptr);
    if (r->status == 1) {
        auto x = groups(a), y = groups(r); int same = 0, tot = 0; u64 which = 0;
        for (auto &g : x) {
            if (g.first > 100) { if (g.second.empty()) continue; tot++; auto &o = y[g.first]; for (size_t q = 0; q < std::min(o.size(), g.second.size()); q++) if (o[q] == g.second[q]) { same++; which = g.first - 100; break; } continue; }
            if (g.second.size() < 3) continue;
            tot++; if (y.count(g.first) && y[g.first] == g.second) { same++; which = g.first; }
        }
        u64 h = a->hash; merge_counts(r, a); r->hash = mix64(r->hash ^ h); r->cnt[C_pair_runs]++;
        if (tot && kind == 20 && same) fail(r, V_ENTROPY, "seed byte %ld does not influence layout (%d of %d groups of choices are unchanged, e.g. class %u)", (long)s.get("flipat"), same, tot, CLS_SIZE[which]);
        if (tot && kind == 21 && same) fail(r, V_RESEED, "after %lu operations the layout is still determined by entropy taken before them", (unsigned long)r->cnt[C_churn_iters] / 2);
        if (tot && kind == 22 && same) fail(r, V_RANDOM, "runs with different entropy make the same choices for %s", which ? "a size class" : "guard sizes of large blocks");
        if (!tot) { r->status = 3; snprintf(r->msg, sizeof r->msg, "pair run without trace"); }
    }
    delete a;
}
static void stat_check(const Spec &s, Result *r) {
    u64 K = s.get("stat"); std::map<u64, std::vector<std::vector<u64>>> v; // key -> per run values
    Result *acc = new Result(); memset(acc, 0, sizeof *acc); u64 h = 0;
    for (u64 i = 0; i < K; i++) {
        Spec t = s; t.p["entropy"] = s.get("entropy") + 1000003 * i; run_child(t, false, nullptr);
        if (r->status != 1) { delete acc; return; }
        merge_counts(acc, r); h = mix64(h ^ r->hash);
        std::map<u64, std::vector<u64>> m; for (u32 k = 0; k + 1 < r->ntrace; k += 2) m[r->trace[k]].push_back(r->trace[k + 1]);
        for (auto &x : m) v[x.first].push_back(x.second);
    }
    *r = *acc; delete acc; r->status = 1; r->hash = h; r->cnt[C_pair_runs] += K;
    u64 asz = 0; (void)asz; u64 range = CFG.class_region / PG + 1; // gap choices, in pages (about)
    for (auto &x : v) {
        u64 key = x.first; std::set<u64> vals; std::map<u64, u64> hist; u64 n = 0, mx = 0, mn = ~0ull; double sum = 0;
        for (auto &run : x.second) for (u64 y : run) { vals.insert(y); hist[y]++; n++; mx = std::max(mx, y); mn = std::min(mn, y); sum += y; }
        u64 top = 0; for (auto &hh : hist) top = std::max(top, hh.second);
        if (n < K / 2) continue;
        if (key >= 1000 && key < 2000 && CFG.slot_rand) {
            u32 c = key - 1000, slots = CLS_SLOTS[c]; if (slots < 2) continue;
            // n independent uniform draws from `slots` values: chance of missing one value is slots * (1-1/slots)^n
            if (slots <= 8 && vals.size() != slots) { fail(r, V_RANDOM, "class %u: only %zu of %u slots are ever chosen first in %lu runs", CLS_SIZE[c], vals.size(), slots, (unsigned long)n); return; }
            if (vals.size() < std::min<u64>(slots, n) / 3 || (slots > 8 && (mx < slots * 3 / 4 || mn > slots / 4))) { fail(r, V_RANDOM, "class %u: first slots cover only %zu values in [%lu,%lu] of %u in %lu runs", CLS_SIZE[c], vals.size(), (unsigned long)mn, (unsigned long)mx, slots, (unsigned long)n); return; }
            if (top > n / slots + 12 * std::sqrt((double)n / slots) + 12) { fail(r, V_RANDOM, "class %u: one slot is chosen first in %lu of %lu runs", CLS_SIZE[c], (unsigned long)top, (unsigned long)n); return; }
        }
        if (key >= 2000 && key < 3000) {
            u32 c = key - 2000; if (range < 4096) continue;
            if (vals.size() < n - n / 8 || top > 3 + 20 * n / range) { fail(r, V_RANDOM, "class %u: the start of its area takes only %zu values in %lu runs", CLS_SIZE[c], vals.size(), (unsigned long)n); return; }
            if (mx < range * 3 / 4 || mn > range / 4 || mx > range + 1) { fail(r, V_RANDOM, "class %u: the start of its area stays within pages [%lu,%lu] of %lu", CLS_SIZE[c], (unsigned long)mn, (unsigned long)mx, (unsigned long)range); return; }
        }
        if (key == 3000) {
            u64 choices = 163840 / PG / CFG.guard_div; if (choices < 2) continue;
            if (vals.size() != choices || mn != 1 || mx != choices) { fail(r, V_RANDOM, "guard sizes of large blocks take %zu values in [%lu,%lu] pages, expected 1 to %lu", vals.size(), (unsigned long)mn, (unsigned long)mx, (unsigned long)choices); return; }
            if (top > n / choices + 12 * std::sqrt((double)n / choices) + 12) { fail(r, V_RANDOM, "one guard size is chosen in %lu of %lu cases", (unsigned long)top, (unsigned long)n); return; }
        }
        if (key == 5000) { // time a range stays withheld: queue plus a geometric number of frees
            if (CFG.rq_rand > 1 && vals.size() < 4) { fail(r, V_RANDOM, "freed large ranges are given back in a fixed order (%zu different delays)", vals.size()); return; }
        }
    }
    // classes are placed independently: gaps of different classes agree only by chance
    if (range >= 4096) for (size_t i = 0; i < K; i++) {
        std::map<u64, int> same; int most = 0;
        for (auto &x : v) if (x.first >= 2000 && x.first < 3000 && i < x.second.size() && !x.second[i].empty()) most = std::max(most, ++same[x.second[i][0]]);
        if (most >= 5) { fail(r, V_RANDOM, "%d size classes start at the same offset of their areas in one run", most); return; }
    }
}
static void execute(const Spec &s, bool record = false, const char *recpath = nullptr) {
    if (s.get("stat")) { stat_check(s, RC[0]); return; }
    run_child(s, record, recpath);
    if (s.get("pair")) pair_check(s, RC[0]);
}

// ---------------------------------------------------------------- minimisation
static int min_runs;
static bool still(const Spec &s, int cls, double deadline) { if (now() > deadline) return false; min_runs++; execute(s); return RC[0]->status == 2 && RC[0]->cls == cls; }
template <class T> static void ddmin(Spec &s, std::vector<T> Spec::*field, int cls, double deadline) {
    size_t chunk = ((s.*field).size() + 1) / 2;
    while (chunk && now() < deadline) {
        bool any = false;
        for (size_t i = 0; i < (s.*field).size() && now() < deadline;) {
            Spec t = s; auto &v = t.*field; size_t e = std::min(i + chunk, v.size());
            v.erase(v.begin() + i, v.begin() + e);
            if (still(t, cls, deadline)) { s = t; any = true; } else i = e;
        }
        if (!any || chunk > 1) { if (chunk == 1) break; chunk = chunk / 2; }
    }
}
static Spec minimise(const Spec &orig, int cls, double budget, std::string &note) {
    double dl = now() + budget; min_runs = 0;
    Spec s = orig; char rec[200]; snprintf(rec, sizeof rec, "/tmp/simrec.%d", getpid());
    bool ex = false;
    if (!s.is_explicit && !s.get("pair") && !s.get("stat")) {
        unlink(rec); execute(s, true, rec);
        Spec t = s; t.is_explicit = true; load_spec(rec, t, nullptr, nullptr); unlink(rec);
        ex = still(t, cls, now() + 60);
        if (ex) s = t;
        note = ex ? "explicit schedule" : "schedule kept as seed";
    } else note = "kept as seed";
    if (!ex && !s.is_explicit) return s; // the seed decides everything; ops could be dropped but the schedule would change
    for (int round = 0; round < 3 && now() < dl; round++) {
        size_t before = s.ops.size() + s.faults.size() + s.switches.size();
        ddmin(s, &Spec::ops, cls, dl); ddmin(s, &Spec::faults, cls, dl); ddmin(s, &Spec::switches, cls, dl);
        if (s.ops.size() + s.faults.size() + s.switches.size() == before) break;
    }
    for (const char *k : {"foreign", "vma_limit", "commit_limit", "trimtest", "freeall", "preinit", "reent_atfork", "child_faults"}) if (s.get(k)) { Spec t = s; t.p.erase(k); if (still(t, cls, dl)) s = t; }
    for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i].kind == OP_CHURN || s.ops[i].kind == OP_BURST) while (s.ops[i].b > 1) { Spec t = s; t.ops[i].b = t.ops[i].b / 2; if (!still(t, cls, dl)) break; s = t; }
    return s;
}

// ---------------------------------------------------------------- batch
// did the run decide the property at least once?
static bool decides(int prop, const Result *r) {
    const u64 *c = r->cnt; u64 mem = 0; for (int i = F_MMAP_ENOMEM; i <= F_MADVISE_ENOMEM; i++) mem += r->fault_cnt[i];
    mem += r->fault_cnt[F_VMA_LIMIT] + r->fault_cnt[F_COMMIT_LIMIT] + c[C_alloc_null] + c[C_bad_alloc];
    if (c[C_api_calls] < 3 && !r->terminal) return false;
    switch (prop) {
    case 1: return c[C_verify_bytes]; case 2: return c[C_allocs] || c[C_blocks]; case 3: return c[C_reallocs]; case 4: return mem; case 5: return r->fault_cnt[F_KERR];
    case 6: case 11: return c[C_probes]; case 7: return c[C_race_free_runs]; case 8: return c[C_zero_checks]; case 9: case 26: return c[C_frees]; case 10: return c[C_waf_armed] || c[C_probes];
    case 12: return c[C_quar_checks]; case 13: return c[C_guard_checks]; case 15: return c[C_foreign_placed] || mem; case 14: case 16: case 29: return c[C_quiescent_checks];
    case 17: return c[C_switches] && c[C_race_checked_accesses]; case 18: case 19: return c[C_fork_children];
    case 20: return c[C_pair_runs] || r->fault_cnt[F_GR_EINTR] || r->fault_cnt[F_GR_SHORT] || r->fault_cnt[F_GR_FAIL]; case 21: return c[C_pair_runs] || c[C_rng_seedings] > 1; case 22: return c[C_pair_runs];
    case 23: return c[C_stats_checks]; case 24: return c[C_trims]; case 25: return r->op_cnt[OP_OBJSIZE] || r->op_cnt[OP_OBJSIZE_FAST];
    case 27: return r->op_cnt[OP_FREE_SIZED] || r->op_cnt[OP_DELETE] || c[C_probes]; case 28: return r->op_cnt[OP_NEW]; case 30: return c[C_seal_checks];
    case 31: return c[C_probe_fatal] || c[C_terminal_fatal]; case 33: return c[C_tag_checks]; case 34: return c[C_keystream_checks]; case 35: return c[C_uniform_checks];
    }
    return true;
}
struct Agg { Result sum; u64 runs = 0, terminal = 0; std::set<u64> hashes, scheds; u64 nontrivial = 0; std::set<u64> dn; };
static void jstr(FILE *f, const std::string &s) { fputc('"', f); for (char c : s) { if (c == '"' || c == '\\') fputc('\\', f); if (c == '\t') fputs("\\t", f); else if ((u8)c >= 32) fputc(c, f); } fputc('"', f); }
static void setup_shm() {
    size_t sz = 3 * sizeof(Result) + sizeof(Outcome) + 4096;
    shm = (Result *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < 3; i++) RC[i] = shm + i;
    OUT = (Outcome *)(shm + 3); R = RC[0];
}
static int prop_arg(const char *s) { return atoi(s + (*s == 'C')); }
static int cmd_batch(int argc, char **argv) { // prop vseed mode worker nworkers nruns timelimit outfile replaydir
    if (argc < 11) return 9;
    int prop = prop_arg(argv[2]); u64 vseed = strtoull(argv[3], 0, 10); const char *mode = argv[4]; u64 w = atoi(argv[5]), nw = atoi(argv[6]), n = strtoull(argv[7], 0, 10); double tl = atof(argv[8]); const char *out = argv[9], *rdir = argv[10];
    Agg ag; memset(&ag.sum, 0, sizeof ag.sum); double t0 = now(); FILE *f; std::string viol; int bad = 0; u64 detchecks = 0; std::string sample; std::map<std::string, u64> herr;
    for (u64 i = w; i < n; i += nw) {
        if (now() - t0 > tl) break;
        Spec s = generate(prop, vseed, i, mode);
        execute(s);
        Result *r = new Result(*RC[0]);
        ag.runs++; ag.terminal += r->terminal; merge_counts(&ag.sum, r); for (int k = 0; k < PR_COUNT; k++) ag.sum.probe_cnt[k] += r->probe_cnt[k];
        ag.hashes.insert(r->hash); ag.scheds.insert(r->sched_hash);
        if (decides(prop, r)) { ag.nontrivial++; ag.dn.insert(r->hash); }
        if (sample.empty() && ag.runs == 2) { char b[300]; snprintf(b, sizeof b, "config %s mode %s index %lu: seed %ld, %ld threads, %zu operations, %lu api calls, %lu switches, %lu syscalls, hash %lx", CFG.name, mode, (unsigned long)i, (long)s.get("seed"), (long)s.get("threads"), s.ops.size(), (unsigned long)r->cnt[C_api_calls], (unsigned long)r->cnt[C_switches], (unsigned long)r->cnt[C_syscalls], (unsigned long)r->hash); sample = b; }
        // determinism is sampled all the time
        if (r->status == 1 && (ag.runs % 50 == 3) && !s.get("stat")) { execute(s); detchecks++; if (RC[0]->hash != r->hash || RC[0]->status != r->status) { r->status = 3; snprintf(r->msg, sizeof r->msg, "run is not deterministic (index %lu)", (unsigned long)i); } }
        if (r->status == 3) { herr[std::string(r->msg) + " @" + std::to_string(i)]++; bad++; if (bad > 3) { delete r; break; } }
        if (r->status == 2) {
            // gate: same seed again, same hash
            execute(s);
            if (RC[0]->status != 2 || RC[0]->cls != r->cls || RC[0]->hash != r->hash) { herr["violation did not repeat: " + std::string(r->msg) + " @" + std::to_string(i)]++; bad++; delete r; if (bad > 3) break; continue; }
            std::string note; Spec m = minimise(s, r->cls, s.get("stat") || s.get("pair") ? 1 : 15, note);
            execute(m);
            if (RC[0]->status != 2 || RC[0]->cls != r->cls) { m = s; execute(m); }
            Result m1 = *RC[0]; execute(m);
            if (m1.status == 2 && RC[0]->status == 2 && RC[0]->hash == m1.hash) {
                char path[600]; snprintf(path, sizeof path, "%s/C%02d-%s-%s-%s-%lu.replay", rdir, prop, CFG.name, mode, vclass_name[m1.cls], (unsigned long)i);
                save_spec(m, path, &m1); viol = std::string(path) + "\t" + vclass_name[m1.cls] + "\t" + esc(m1.msg) + "\t" + note + ", " + std::to_string(m.ops.size()) + " operations, " + std::to_string(m.faults.size()) + " faults, " + std::to_string(m.switches.size()) + " switches";
                delete r; break;
            }
            herr["minimised violation did not repeat"]++; bad++;
        }
        delete r;
    }
    f = fopen(out, "w"); if (!f) return 9;
    fprintf(f, "{\"config\":\"%s\",\"mode\":\"%s\",\"runs\":%lu,\"wall\":%.3f,\"distinct_histories\":%zu,\"distinct_schedules\":%zu,\"terminal\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"determinism_rechecks\":%lu", CFG.name, mode, (unsigned long)ag.runs, now() - t0, ag.hashes.size(), ag.scheds.size(), (unsigned long)ag.terminal, (unsigned long)ag.nontrivial, ag.dn.size(), (unsigned long)detchecks);
    fprintf(f, ",\"violation\":"); jstr(f, viol); fprintf(f, ",\"sample\":"); jstr(f, sample);
    auto dump = [&](const char *nm, const char *const *names, const u64 *v, int k) { fprintf(f, ",\"%s\":{", nm); bool first = true; for (int i = 0; i < k; i++) if (v[i]) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", names[i], (unsigned long)v[i]); first = false; } fprintf(f, "}"); };
    dump("counters", cnt_name, ag.sum.cnt, C_COUNT); dump("faults", fkind_name, ag.sum.fault_cnt, F_COUNT); dump("ops", opkind_name, ag.sum.op_cnt, OP_COUNT); dump("probes", probe_name, ag.sum.probe_cnt, PR_COUNT); dump("other_classes", vclass_name, ag.sum.vother, V_COUNT);
    fprintf(f, ",\"errors\":{"); bool first = true; for (auto &e : herr) { if (!first) fprintf(f, ","); first = false; jstr(f, e.first); fprintf(f, ":%lu", (unsigned long)e.second); } fprintf(f, "}}\n");
    fclose(f);
    return 0;
}
static void print_result(Result *r) { printf("status %d class %s hash %lx sched %lx calls %lu switches %lu syscalls %lu steps %lu\n%s\n", r->status, vclass_name[r->cls], (unsigned long)r->hash, (unsigned long)r->sched_hash, (unsigned long)r->cnt[C_api_calls], (unsigned long)r->cnt[C_switches], (unsigned long)r->cnt[C_syscalls], (unsigned long)r->cnt[C_steps], r->msg); }
int main(int argc, char **argv) {
    if (!getenv("SIM_REEXEC") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { setenv("SIM_REEXEC", "1", 1); personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); perror("exec"); return 9; }
    oracle_init(); setup_shm();
    if (argc < 2) return 9;
    std::string c = argv[1];
    if (c == "batch") return cmd_batch(argc, argv);
    if (c == "one" && argc >= 6) { // prop vseed mode index [-v]
        g_verbose = argc > 6; Spec s = generate(prop_arg(argv[2]), strtoull(argv[3], 0, 10), strtoull(argv[5], 0, 10), argv[4]); execute(s); print_result(RC[0]);
        if (!g_verbose) for (int i = 0; i < V_COUNT; i++) if (RC[0]->vother[i]) printf("other %s %lu\n", vclass_name[i], (unsigned long)RC[0]->vother[i]);
        return 0;
    }
    if (c == "save" && argc >= 7) { Spec s = generate(prop_arg(argv[2]), strtoull(argv[3], 0, 10), strtoull(argv[5], 0, 10), argv[4]); save_spec(s, argv[6], nullptr); return 0; }
    if (c == "replay" && argc >= 3) {
        g_verbose = argc > 3; Spec s; std::string cls; u64 h = 0; if (!load_spec(argv[2], s, &cls, &h)) return 9;
        execute(s); print_result(RC[0]);
        if (RC[0]->status == 2 && cls == vclass_name[RC[0]->cls]) { printf("REPRODUCED %s hash %s\n", cls.c_str(), RC[0]->hash == h ? "equal" : "DIFFERS"); return RC[0]->hash == h ? 0 : 4; }
        printf("NOT REPRODUCED\n"); return 5;
    }
    if (c == "min" && argc >= 4) { Spec s; std::string cls; u64 h; load_spec(argv[2], s, &cls, &h); execute(s); if (RC[0]->status != 2) { printf("no violation\n"); return 1; } std::string note; Spec m = minimise(s, RC[0]->cls, 30, note); execute(m); save_spec(m, argv[3], RC[0]); print_result(RC[0]); printf("%s\n", note.c_str()); return 0; }
    if (c == "survey" && argc >= 7) { // prop vseed mode from n: histogram of outcomes
        u64 a = strtoull(argv[5], 0, 10), n = strtoull(argv[6], 0, 10); std::map<std::string, std::pair<u64, u64>> hist; double t0 = now(); bool others = argc > 7;
        for (u64 i = a; i < a + n; i++) {
            Spec s = generate(prop_arg(argv[2]), strtoull(argv[3], 0, 10), i, argv[4]); execute(s); Result *r = RC[0]; std::string k = std::string(r->status == 1 ? "ok" : r->status == 2 ? vclass_name[r->cls] : "HARNESS") + " ";
            if (r->status != 1) for (char *p = r->msg; *p; p++) { if (*p == '#') continue; bool hex = (*p >= '0' && *p <= '9'); if (hex) { k += 'N'; while ((p[1] >= '0' && p[1] <= '9') || p[1] == 'x' || (p[1] >= 'a' && p[1] <= 'f' && p[1] != 'b')) p++; } else k += *p; }
            if (r->terminal) k += "terminal";
            auto &h = hist[k]; if (!h.first++) h.second = i;
            if (others) for (int v = 0; v < V_COUNT; v++) if (r->vother[v]) { auto &g = hist[std::string("other ") + vclass_name[v]]; if (!g.first++) g.second = i; }
        }
        for (auto &h : hist) printf("%s prop %s %s: %lu x %s (first index %lu)\n", CFG.name, argv[2], argv[4], (unsigned long)h.second.first, h.first.c_str(), (unsigned long)h.second.second);
        printf("%.2f ms per run\n", (now() - t0) * 1000 / n); return 0;
    }
    if (c == "det" && argc >= 6) { // prop vseed mode n: print all hashes
        u64 n = strtoull(argv[5], 0, 10); for (u64 i = 0; i < n; i++) { Spec s = generate(prop_arg(argv[2]), strtoull(argv[3], 0, 10), i, argv[4]); execute(s); printf("%lu %d %lx\n", (unsigned long)i, RC[0]->status, (unsigned long)RC[0]->hash); }
        return 0;
    }
    return 9;
}
