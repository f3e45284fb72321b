// Stands in for the parts of bionic the Android build of the allocator relies on.
#ifndef DROID_H
#define DROID_H
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <stdalign.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/cdefs.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <unistd.h>
#ifdef __cplusplus
#include <new>
#include <cstdlib>
#include <bits/functexcept.h>
#else
#include <stdatomic.h>
#include <threads.h>
#endif
#undef __GLIBC__
#define __ANDROID__ 1
#define mallinfo mallinfo2 // fields of type size_t
#define M_PURGE (-101)
#define M_PURGE_ALL (-104)
#ifdef __cplusplus
extern "C" {
#endif
void async_safe_fatal(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#ifdef __cplusplus
}
#endif
#endif
