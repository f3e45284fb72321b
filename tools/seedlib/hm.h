// hooks between the allocator and the kernel for a demonstration program
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "h_malloc.h"
enum { MMAP, MMAP_FIXED, MUNMAP, MPROTECT, MADVISE, MREMAP };
// returns the errno to fail the call with, 0 to let it through
static int (*hm_pre)(int call, void *p, size_t n, int prot);
static void (*hm_post)(int call, void *p, size_t n, void *res);
static ssize_t (*hm_random)(void *buf, size_t n);
static ssize_t (*hm_writer)(int fd, const void *buf, size_t n);
static void (*hm_locked)(int unlock, void *m);
static void (*hm_name)(void *p, size_t n, const char *s);
static void (*hm_keyed)(void *p, size_t n, int prot, int key);
static int hm_rights = -1;
#ifdef __cplusplus
extern "C" {
#endif
#define PRE(c, p, n, prot, bad) if (hm_pre) { int e_ = hm_pre(c, p, n, prot); if (e_) { errno = e_; return bad; } }
#define POST(c, p, n, r) do { int s_ = errno; if (hm_post) hm_post(c, p, n, (void *)(r)); errno = s_; } while (0)
void *hm_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    int c = fl & MAP_FIXED ? MMAP_FIXED : MMAP;
    PRE(c, a, n, prot, MAP_FAILED)
    void *r = mmap(a, n, prot & 7, fl | MAP_NORESERVE, fd, o);
    POST(c, r, n, r);
    return r;
}
int hm_munmap(void *p, size_t n) { PRE(MUNMAP, p, n, 0, -1) int r = munmap(p, n); POST(MUNMAP, p, n, (long)r); return r; }
int hm_mprotect(void *p, size_t n, int prot) { PRE(MPROTECT, p, n, prot, -1) int r = mprotect(p, n, prot & 7); POST(MPROTECT, p, n, (long)r); return r; }
int hm_pkey_mprotect(void *p, size_t n, int prot, int key) { if (hm_keyed) hm_keyed(p, n, prot, key); return hm_mprotect(p, n, prot); }
int hm_madvise(void *p, size_t n, int adv) { PRE(MADVISE, p, n, adv, -1) int r = madvise(p, n, adv); POST(MADVISE, p, n, (long)r); return r; }
void *hm_mremap(void *p, size_t o, size_t n, int fl, ...) {
    va_list ap; va_start(ap, fl); void *na = fl & MREMAP_FIXED ? va_arg(ap, void *) : NULL; va_end(ap);
    PRE(MREMAP, p, o, 0, MAP_FAILED)
    void *r = mremap(p, o, n, fl, na);
    POST(MREMAP, p, o, r);
    return r;
}
ssize_t hm_getrandom(void *b, size_t n, unsigned f) { return hm_random ? hm_random(b, n) : getrandom(b, n, f); }
ssize_t hm_write(int fd, const void *b, size_t n) { return hm_writer ? hm_writer(fd, b, n) : write(fd, b, n); }
int hm_pkey_alloc(unsigned f, unsigned a) { (void)f; (void)a; hm_rights = 0; return 1; }
int hm_pkey_set(int k, unsigned r) { (void)k; hm_rights = r; return 0; }
int hm_prctl(int o, unsigned long a, void *p, size_t n, const char *s) { (void)o; (void)a; if (hm_name) hm_name(p, n, s); return 0; }
int hm_pthread_mutex_lock(pthread_mutex_t *m) { int r = pthread_mutex_lock(m); if (hm_locked) hm_locked(0, m); return r; }
int hm_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); if (hm_locked) hm_locked(1, m); return r; }
#ifdef __cplusplus
}
#endif
// how a call ends in a process of its own: 0 returned normally, otherwise the signal that ended it (SIGALRM: it hung)
static inline int ends(void (*fn)(void)) {
    fflush(NULL);
    pid_t pid = fork();
    if (!pid) {
        freopen("/dev/null", "w", stderr);
        alarm(20);
        fn();
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? -WEXITSTATUS(st) : 0;
}
static inline bool readable(const void *p) {
    int fd[2];
    if (pipe(fd)) _exit(98);
    bool r = write(fd[1], p, 1) == 1;
    close(fd[0]); close(fd[1]);
    return r;
}
static inline bool is_mapped(void *p) {
    unsigned char v;
    return mincore((void *)((uintptr_t)p & ~4095ul), 1, &v) == 0;
}
#define BROKEN(...) do { fprintf(stderr, "BROKEN: " __VA_ARGS__); fputc('\n', stderr); _exit(1); } while (0)
