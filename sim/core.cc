// Run control: violation reporting, process end, signals, execution of one run in this process.
#include "sim.h"
#include <exception>
#include "ops.h"
#include <csignal>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

Result *R, *RC[3]; Outcome *OUT; Spec S; bool g_probe; int g_probe_watch, g_run_kind; std::string g_rec_path;
const char *const vclass_name[] = {
#define X(n, p) #n,
    VCLASSES(X)
#undef X
};
const int vclass_prop[] = {
#define X(n, p) p,
    VCLASSES(X)
#undef X
};
#define X(n) #n,
const char *const fkind_name[] = {FKINDS(X)};
const char *const opkind_name[] = {OPKINDS(X)};
const char *const probe_name[] = {PROBES(X)};
const char *const cnt_name[] = {CNT(X)};
#undef X

bool class_active(VClass c) {
    int prop = S.get("prop"), p = vclass_prop[c];
    if (c == V_HARNESS) return true;
    if (!prop || p == prop) return true;
    if (p < 0) return true;
    if (prop == 33 && CFG.android && (c == V_WAF || c == V_CANARY_MISS)) return true; // probed only once tagging is off
    if (g_in_child && prop == 18) return p != 23 && p != 30 && p != 26 && p != 31 && p != 19;
    return false;
}
static void dump_record() {
    if (!g_record || g_rec_path.empty() || g_in_child || g_probe) return;
    FILE *f = fopen(g_rec_path.c_str(), "w"); if (!f) return;
    for (auto &x : g_rec_faults) fprintf(f, "fault %d %d %s %lu\n", x.op, x.idx, fkind_name[x.kind], (unsigned long)x.val);
    for (auto &x : g_rec_switches) fprintf(f, "switch %d %lu %d\n", x.op, (unsigned long)x.pts, x.to);
    fclose(f);
}
void run_exit(int status) {
    if (g_probe) { if (!OUT->kind) OUT->kind = status == 3 ? 5 : 3; _exit(0); }
    if (cur) R->cnt[C_steps] += G.pts;
    if (R->status == 0) R->status = status;
    dump_record();
    _exit(0);
}
void violation(VClass c, const char *fmt, ...) {
    char m[600]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
    int sav = errno;
    if (g_probe) {
        if (c == V_DEADLOCK || c == V_HANG) { OUT->kind = 4; _exit(0); }
        if (c == V_REPORT) { OUT->kind = 6; snprintf(OUT->msg, sizeof OUT->msg, "%s", m); _exit(0); }
        return;
    }
    if (g_misuse_running && c != V_RACE_FREE && c != V_DEADLOCK && c != V_HANG && c != V_REPORT) { errno = sav; return; }
    vlog("VIOLATION %s%s: %s", vclass_name[c], class_active(c) ? "" : " (not this check's property)", m);
    if (!class_active(c)) { R->vother[c]++; count(C_other_class_violations); errno = sav; return; }
    R->cls = c; R->opid = cur ? cur->cur_op : -1; R->tid = cur ? cur->id : -1; ev(0xbad, c);
    snprintf(R->msg, sizeof R->msg, "%s", m);
    R->status = 2;
    run_exit(2);
}
static bool report_ok(char *why, size_t n) {
    static const char pre[] = "fatal allocator error: ";
    if (g_wr_failed) return true;
    const std::string &t = cur->fout; // what this thread printed: another one may be reporting at the same time
    std::string q; for (char c : t.substr(0, 100)) q += c == '\n' ? '|' : c;
    if (t.compare(0, sizeof pre - 1, pre) != 0 || t.size() <= sizeof pre || t.back() != '\n' || t != cur->fwant) { snprintf(why, n, "incomplete or garbled diagnostic \"%s\"", q.c_str()); return false; }
    return true;
}
void handle_fatal_stop(const char *why) {
    char w[200];
    bool ok = report_ok(w, sizeof w);
    vlog("process stops (%s): %s", why, g_fatal_out.c_str());
    if (g_probe) {
        OUT->kind = ok ? 1 : 6; snprintf(OUT->msg, sizeof OUT->msg, "%s", ok ? cur->fout.c_str() : w);
        _exit(0);
    }
    if (!ok) violation(V_REPORT, "%s", w);
    if (cur->expect_fatal || cur->allow_fatal || g_misuse_running) { R->terminal = 1; count(C_terminal_fatal); ev(0xdead); run_exit(1); }
    std::string t = g_fatal_out; while (!t.empty() && t.back() == '\n') t.pop_back();
    violation(V_SPURIOUS_FATAL, "a correct program was stopped: %s", t.c_str());
    run_exit(3);
}
static void on_segv(int sig, siginfo_t *si, void *) {
    u64 a = (u64)si->si_addr;
    if (g_probe) { OUT->kind = 2; snprintf(OUT->msg, sizeof OUT->msg, "signal %d at %#lx", sig, (unsigned long)a); _exit(0); }
    if (g_misuse_running) { count(C_racefree_segv); R->terminal = 1; run_exit(1); }
    if (cur && cur->in_sut) violation(V_CRASH, "signal %d inside the allocator, address %#lx", sig, (unsigned long)a);
    snprintf(R->msg, sizeof R->msg, "signal %d in the harness at %#lx (op %d)", sig, (unsigned long)a, cur ? cur->cur_op : -1);
    vlog("%s", R->msg);
    R->status = 3; _exit(0);
}
static void on_timer(int) {
    if (g_probe) { OUT->kind = 4; _exit(0); }
    if (cur && cur->in_sut) violation(V_HANG, "call used all the processor time of the run");
    snprintf(R->msg, sizeof R->msg, "run took too long (op %d)", cur ? cur->cur_op : -1);
    R->status = 3; _exit(0);
}
static void on_terminate() { // an exception leaves a function that must not throw
    if (g_probe) { OUT->kind = 4; _exit(0); }
    if (cur && cur->in_sut) { violation(V_CXX, "an exception ended the process instead of being handled by the allocation function"); R->terminal = 1; run_exit(1); }
    signal(SIGABRT, SIG_DFL); abort();
}
static void on_abrt(int) {
    if (g_probe) { OUT->kind = 4; _exit(0); }
    if (cur && cur->in_sut) violation(V_CRASH, "the process was aborted inside the allocator, not by a fatal error");
    snprintf(R->msg, sizeof R->msg, "abort (op %d)", cur ? cur->cur_op : -1); R->status = 3; _exit(0);
}
void run_spec_child() {
    static char alt[65536];
    stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    struct sigaction sb = {}; sb.sa_handler = on_abrt; sb.sa_flags = SA_ONSTACK; sigaction(SIGABRT, &sb, nullptr); std::set_terminate(on_terminate);
    struct sigaction st = {}; st.sa_handler = on_timer; st.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &st, nullptr);
    struct itimerval it = {{0, 0}, {(time_t)S.get("cpulimit", 40), 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    R->hash = 0x1234; R->sched_hash = 0;
    g_probe = g_in_child = false; g_rec_faults.clear(); g_rec_switches.clear();
    oracle_init(); sched_init(); kernel_init(); ops_init();
    sched_run();
    R->status = 3; snprintf(R->msg, sizeof R->msg, "scheduler returned"); _exit(0);
}
